"""Shared plumbing of the checks: build the harness, run scenarios, hand recordings to TLC."""
import json, os, subprocess, sys, time, shutil, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
RKV = os.path.join(BUILD, "debug", "rkv")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")


class ToolError(Exception):
    pass


def build():
    env = dict(os.environ, CARGO_TARGET_DIR=BUILD, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "harness"), env=env,
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("building the harness failed:\n" + r.stderr[-3000:])


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def harness(scs, work, tag, limit, threads, timeout):
    """one process of the harness; (exit code, stderr, {name: events})"""
    inp, outp = os.path.join(work, tag + ".in"), os.path.join(work, tag + ".out")
    with open(inp, "w") as f:
        for s in scs:
            f.write(json.dumps({k: s[k] for k in s if k not in ("twin", "focus")}) + "\n")
    if os.path.exists(outp):
        os.unlink(outp)
    env = dict(os.environ, RKV_THREADS=str(threads), RKV_LIMIT=str(limit))
    try:
        r = subprocess.run([RKV, inp, outp], env=env, capture_output=True, text=True, timeout=timeout, preexec_fn=limits,
                           errors="replace")
        rc, err = r.returncode, r.stderr
    except subprocess.TimeoutExpired:
        rc, err = -9, "time limit"
    res, cur, name = {}, None, None
    if os.path.exists(outp):
        with open(outp) as f:
            for line in f:
                try:
                    e = json.loads(line)
                except ValueError:
                    break                     # cut off by the end of the process
                if e["e"] == "reset":
                    name = e["sc"]
                    cur = []
                    res[name] = cur
                else:
                    cur.append(e)
    return rc, err, res


def run_scenarios(scs, work, tag, limit=15, threads=8, timeout=400):
    """run scenarios in the real code; returns {name: events}. A scenario that brings the process down is recorded as
    [{"e": "died"}]: it is found by running every scenario in a process of its own."""
    rc, err, res = harness(scs, work, tag, limit, threads, timeout)
    if rc == 2:
        raise ToolError(f"harness failed: " + err[-2000:])
    if rc != 0:
        sys.stderr.write(f"the harness ended with {rc}; running the scenarios one by one\n{err[-500:]}\n")

        def one(k):
            r1, e1, x = harness([scs[k]], work, f"{tag}.one{k}", limit, 1, 60)
            if r1 == 2:
                raise ToolError("harness failed: " + e1[-2000:])
            for suf in ("in", "out"):
                p = os.path.join(work, f"{tag}.one{k}.{suf}")
                if os.path.exists(p):
                    os.unlink(p)
            if r1 != 0 or scs[k]["name"] not in x:
                return [{"e": "died", "t": 0, "rc": r1, "at": e1[-300:]}]
            return x[scs[k]["name"]]

        with cf.ThreadPoolExecutor(threads) as ex:
            res = {s["name"]: ev for s, ev in zip(scs, ex.map(one, range(len(scs))))}
        if not any(ev and ev[0]["e"] == "died" for ev in res.values()):
            sys.stderr.write("no scenario does it alone\n")
    missing = [s["name"] for s in scs if s["name"] not in res]
    if missing:
        raise ToolError("harness gave no recording for " + str(missing[:5]))
    return res


def tlc(module, cfg, env=None, workdir=None, workers=1, extra=(), timeout=800, heap="2g", simulate=None):
    e = dict(os.environ)
    e.update(env or {})
    meta = tempfile.mkdtemp(prefix="tlc", dir=workdir)
    cmd = ["java", f"-Xmx{heap}", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xss64m",
           "-XX:TieredStopAtLevel=4", "-cp", CP, "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(extra) + [module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r


def validate(module, segs, work, tag, shards=8, timeout=800, heap="2g"):
    """check projected recordings (list of event lists) against a trace specification; returns merged result"""
    segs = [s for s in segs if s]
    if not segs:
        return {"n": 0, "nv": 0, "v": [], "c": {}, "segs": 0}
    loads = [(0, k) for k in range(min(shards, len(segs)))]
    parts = [[] for _ in loads]
    order = sorted(range(len(segs)), key=lambda k: -len(segs[k]))
    tot = [0] * len(parts)
    for k in order:
        j = tot.index(min(tot))
        parts[j].append(k)
        tot[j] += len(segs[k])

    def one(j):
        return some(str(j), parts[j])

    def some(j, ks):
        """judge the segments ks; a segment the specification cannot even be evaluated on is a finding of its own"""
        path = os.path.join(work, f"{tag}.{j}.ndjson")
        n = 0
        with open(path, "w") as f:
            for k in ks:
                for e in segs[k]:
                    f.write(json.dumps(e, separators=(",", ":")) + "\n")
                    n += 1
        r = tlc(module + ".tla", module + ".cfg", env={"TRACE": path}, workdir=work, timeout=timeout, heap=heap)
        res = None
        for line in r.stdout.splitlines():
            if line.startswith('"RESULT ') or line.startswith("RESULT "):
                txt = line
                if txt.startswith('"'):
                    txt = json.loads(txt)
                res = json.loads(txt[len("RESULT "):])
        if res is None or res["n"] != n:
            if "attempted" not in r.stdout.lower() and "evaluating" not in r.stdout.lower():
                raise ToolError(f"TLC did not finish on {path}:\n" + r.stdout[-3000:] + r.stderr[-1000:])
            sys.stderr.write(f"TLC cannot evaluate the specification on {path}:\n" + r.stdout[-1500:])
            if len(ks) == 1:
                e = segs[ks[0]][0]
                return {"n": n, "nv": 1, "c": {}, "v": [{"p": "*", "why": "the recording does not fit the specification at all",
                                                         "seg": e["seg"], "line": 0, "t": 0, "file": path}]}
            h = len(ks) // 2
            a, b = some(j + "a", ks[:h]), some(j + "b", ks[h:])
            return {"n": n, "nv": a["nv"] + b["nv"], "v": a["v"] + b["v"],
                    "c": {k: a["c"].get(k, 0) + b["c"].get(k, 0) for k in set(a["c"]) | set(b["c"])}}
        for v in res["v"]:
            v["file"] = path
        return res

    merged = {"n": 0, "nv": 0, "v": [], "c": {}, "segs": len(segs)}
    with cf.ThreadPoolExecutor(len(parts)) as ex:
        for res in ex.map(one, range(len(parts))):
            merged["n"] += res["n"]
            merged["nv"] += res["nv"]
            merged["v"] += res["v"]
            for k, x in res["c"].items():
                merged["c"][k] = merged["c"].get(k, 0) + x
    return merged
