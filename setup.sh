#!/bin/bash
# builds the harness once (every check builds it again from /repo's working tree)
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
python3 -c "
import sys; sys.path.insert(0,'tools'); import lib; lib.build()"
