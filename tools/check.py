#!/usr/bin/env python3
"""One check: python3 tools/check.py <property> [quick|thorough]; or: check.py replay <file>.

Builds the harness against /repo's working tree, lets the real code run scenarios, hands the recordings to TLC with the
trace specifications, model checks the model of the property, and writes evidence/<property>.json.
Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed."""
import json, os, sys, time, shutil, tempfile, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib, gen, project, plan

REPLAYS = os.path.join(lib.VERIF, "replays")
BROKEN = ("panic", "hang", "overflow", "died")
EVID = os.path.join(lib.VERIF, "evidence")


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.start = time.time()
        self.work = tempfile.mkdtemp(prefix="rkv-")
        self.viol = []            # (why, replay path)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events": 0, "scenarios": 0,
                    "counters": {}, "models": [], "samples": []}
        self.other = {}

    def left(self, budget):
        return budget - (time.time() - self.start)

    def replay(self, why, scenario, info):
        os.makedirs(REPLAYS, exist_ok=True)
        n = len(self.viol)
        path = os.path.join(REPLAYS, f"{self.prop}-{n}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "why": why, "info": info, "scenario": scenario}, f, indent=1)
        self.viol.append((why, path))
        if n < 10:
            print(f"VIOLATION property={self.prop} replay={path} ({why})", flush=True)

    def scenarios(self, scs, tag, kinds):
        """run scenarios in the real code and check the recordings; kinds: which trace specifications.
        Findings about this property count. A scenario whose focus is this property says "these steps must not matter":
        it is also run without them, and any finding that only the run with them shows counts as well."""
        twins = [dict(s, name=s["name"] + "~t", ops=s["twin"]) for s in scs if s.get("focus") == self.prop]
        byname = {s["name"]: s for s in scs + twins}
        assert len(byname) == len(scs) + len(twins), "scenario names must differ"
        recs = lib.run_scenarios(scs + twins, self.work, tag)
        self.cov["scenarios"] += len(scs) + len(twins)
        found = {n: {} for n in byname}          # name -> {(p, why): finding}
        for name, evs in recs.items():
            for e in evs:
                if e["e"] in BROKEN:
                    found[name].setdefault((self.prop, f"{e['e']} in the library: {e.get('at', '')}"[:300]), {"event": e})
                    break
        for kind in kinds:
            segs = [x for n, evs in recs.items() for x in project.PROJ[kind](n, evs, byname[n]["cfg"])]
            if not segs:
                continue
            r = lib.validate(kind, segs, self.work, tag + kind)
            self.cov["states"] += r["n"] + r["segs"]
            self.cov["transitions"] += r["n"]
            self.cov["traces_validated_against_impl"] += r["segs"]
            self.cov["events"] += r["n"]
            for k, v in r["c"].items():
                self.cov["counters"][k] = self.cov["counters"].get(k, 0) + v
            if sum(x["spec"] == kind for x in self.cov["samples"]) < 2:
                self.cov["samples"].append({"spec": kind, "recording": segs[0][0].get("seg"), "events": segs[0][:12]})
            for v in r["v"]:
                if v["p"] == "*":
                    v["p"] = self.prop
                found[v["seg"].split(":")[0]].setdefault((v["p"], v["why"]), v)
        for name, fs in found.items():
            sc = byname[name]
            for (p, why), v in fs.items():
                where = f"[{v['seg']} at {v['t']} ms]" if "seg" in v else f"[{name}]"
                if p == self.prop:
                    self.replay(f"{why} {where}", sc, v)
                elif sc.get("focus") == self.prop and not name.endswith("~t") and (p, why) not in found[name + "~t"]:
                    self.replay(f"only with what must not matter: {p} {why} {where}", sc, v)
                else:
                    self.other[p] = self.other.get(p, 0) + 1
        return recs

    def evidence(self, level, extra=None):
        os.makedirs(EVID, exist_ok=True)
        cov = dict(self.cov)
        if self.other:
            cov["findings_of_other_properties"] = self.other
        d = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
             "wall_s": round(time.time() - self.start, 2), "violations": len(self.viol)}
        d.update(extra or {})
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(d, f, indent=1)


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else lib.TIER
    run = Run(prop, tier, lib.SEED)
    try:
        lib.build()
        plan.check(run)
        run.evidence(plan.LEVEL)
    finally:
        shutil.rmtree(run.work, ignore_errors=True)
    c = run.cov
    print(f"{prop} {tier}: {c['scenarios']} scenarios, {c['traces_validated_against_impl']} recordings, {c['events']} events, "
          f"{c['states']} states, {len(run.viol)} violations, {time.time() - run.start:.1f} s")
    return 1 if run.viol else 0


def replay(path):
    d = json.load(open(path))
    lib.build()
    work = tempfile.mkdtemp(prefix="rkv-")
    try:
        recs = lib.run_scenarios([d["scenario"]], work, "r")
        for n, evs in recs.items():
            for kind in project.PROJ:
                segs = project.PROJ[kind](n, evs, d["scenario"]["cfg"])
                r = lib.validate(kind, segs, work, kind)
                for v in r["v"]:
                    print(kind, v["p"], v["why"], v["seg"], v["t"])
            for e in evs:
                if e["e"] in BROKEN:
                    print(e)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except lib.ToolError as e:
        print("CHECK FAILED:", e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
