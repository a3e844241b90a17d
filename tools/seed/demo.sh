#!/bin/bash
# runs demo.rs against the crate in the current directory
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d)
trap 'rm -rf -- "$W"' EXIT
mkdir "$W/src"
cp "$D/demo.rs" "$W/src/main.rs"
cp "$D/kit.rs" "$W/src/kit.rs"
cp "$R/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
rust-raknet = { path = "$R" }
tokio = { version = "1.20.1", features = ["full"] }
T
cd "$W" || exit 3
CARGO_TARGET_DIR="$W/t" cargo build --offline --quiet 2> "$W/err" || { tail -20 "$W/err"; exit 3; }
timeout 250 "$W/t/debug/demo"
