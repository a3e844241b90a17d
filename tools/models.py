"""Closed models: which configurations TLC explores exhaustively for which property."""
import os, re, subprocess, tempfile, time
import lib

ARQ = dict(KindSet="{3}", Parts="{1}", MaxSend=2, MaxQ=4, MaxDup=1, MaxLoss=1, MaxFlush=0, M=16, F=4)


def arq(inv, live=(), **kw):
    return dict(module="Arq", spec="SpecLive" if live else "Spec", inv=inv, prop=list(live), const=dict(ARQ, **kw))


LIB = dict(ARQ, Period=50, Srtt0=0, AgeMax=200, Depth=0)


def alib(inv=(), prop=(), spec="LFree", **kw):
    return dict(module="ArqLib", spec=spec, inv=list(inv), prop=list(prop), const=dict(LIB, **kw))


SES = dict(At="A11", Ver="V2", Good="{10, 11}", Backlog=1, MaxDup=0, MaxLoss=0, Hold="FALSE", Tells=1, MaxSilence=0, CanCancel="TRUE",
           CanLClose="TRUE", CClosing="TRUE", SClosing=1, SData="FALSE", Rude="FALSE")
LIFE = ["OnePerAddress", "Known", "Matched", "OneEach", "Reason", "Empty"]


def ses(inv=(), prop=(), **kw):
    return dict(module="MCSession", spec="SpecLive" if prop else "Spec", inv=list(inv), prop=list(prop), const=dict(SES, **kw))


REFINES = ["ArqStep", "Resend", "NewOnlyAlone"]

# property -> (models of the quick tier, further ones of the thorough tier)
MODELS = {
    "C01": ([arq(["Ordered", "Genuine", "Whole1", "NoClash"], Parts="{1, 2}", MaxQ=4),
             arq([], ["Arrives"], Parts="{1, 2}", MaxQ=5, MaxDup=0),
             arq(["Ordered", "NoClash"], Parts="{1}", MaxSend=4, MaxQ=4, MaxDup=0, M=8, F=4)],
            [arq(["Ordered", "Genuine", "Whole1", "NoClash"], Parts="{1, 2}", MaxSend=2, MaxQ=5),
             arq(["Ordered", "Genuine", "Whole1"], Parts="{1}", MaxSend=4, MaxQ=5),
             arq([], ["Arrives"], Parts="{1, 2}", MaxQ=6, MaxLoss=2)]),
    "C02": ([arq(["Whole1", "Ordered", "NoClash", "Genuine"], Parts="{2}", MaxQ=4),
             arq(["Whole1", "Ordered", "NoClash", "Genuine"], Parts="{3}", MaxSend=1, MaxQ=4, MaxDup=2)],
            [arq(["Whole1", "Ordered", "NoClash", "Genuine"], Parts="{2}", MaxQ=5),
             arq(["Whole1", "Ordered", "NoClash", "Genuine"], Parts="{4}", MaxSend=1, MaxQ=6, MaxDup=1),
             arq([], ["Arrives"], Parts="{3}", MaxSend=2, MaxQ=8, MaxDup=0)]),
    "C03": ([arq(["Genuine", "ReliableOnce"], KindSet="{2, 3}", Parts="{1}", MaxSend=3, MaxQ=4, MaxDup=0),
             arq([], ["Arrives"], KindSet="{2, 3}", Parts="{1}", MaxSend=2, MaxQ=4, MaxLoss=2)],
            [arq(["Genuine", "ReliableOnce"], KindSet="{2, 3}", Parts="{1, 2}", MaxSend=2, MaxQ=5),
             arq([], ["Arrives"], KindSet="{2, 3}", Parts="{1, 2}", MaxSend=3, MaxQ=6, MaxLoss=1, MaxDup=0)]),
    "C04": ([arq(["ReliableOnce"], KindSet="{2, 4}", MaxQ=4, MaxDup=2), arq(["ReliableOnce"], KindSet="{2, 3}", Parts="{1, 2}", MaxQ=4)],
            [arq(["ReliableOnce"], KindSet="{2, 3, 4}", MaxSend=2, MaxQ=5, MaxDup=2),
             arq(["ReliableOnce"], KindSet="{1, 2, 3, 4}", MaxSend=3, MaxQ=4)]),
    "C05": ([arq(["Sequenced", "ReliableOnce"], KindSet="{1, 4}", MaxSend=3, MaxQ=4),
             arq([], ["LastArrives"], KindSet="{1, 4}", MaxSend=2, MaxQ=4, MaxLoss=2)],
            [arq(["Sequenced", "ReliableOnce"], KindSet="{1, 4}", MaxSend=4, MaxQ=5),
             arq([], ["LastArrives"], KindSet="{1, 2, 4}", MaxSend=3, MaxQ=5, MaxLoss=1)]),
    "C06": ([arq(["Unreliable", "Genuine"], KindSet="{0, 1, 2}", MaxSend=3, MaxQ=4, MaxDup=1)],
            [arq(["Unreliable", "Genuine"], KindSet="{0, 1, 2, 4}", MaxSend=3, MaxQ=4, MaxDup=2),
             arq(["Unreliable", "Genuine"], KindSet="{0, 2}", MaxSend=4, MaxQ=5, MaxDup=1)]),
    "C07": ([arq(["AckTrue", "GapTrue"], KindSet="{0, 2}", MaxSend=3, MaxQ=4),
             arq(["AckTrue", "GapTrue"], KindSet="{0}", MaxSend=6, MaxQ=6, MaxDup=0, M=16)],
            [arq(["AckTrue", "GapTrue"], KindSet="{0, 2}", MaxSend=3, MaxQ=5, MaxDup=2)]),
    "C08": ([arq([], ["Arrives"], KindSet="{2}", MaxSend=2, MaxQ=6, MaxLoss=4),
             alib(["Safe", "Meta"], REFINES, KindSet="{2, 3}", MaxQ=4, MaxDup=0),
             alib(["Safe", "Meta"], ["Arrives"], "LLive", KindSet="{2, 3}", Parts="{1, 2}", MaxQ=8, MaxDup=0, MaxLoss=2)],
            [arq([], ["Arrives"], KindSet="{2, 3}", MaxSend=3, MaxQ=6, MaxLoss=3),
             alib(["Safe", "Meta"], REFINES, KindSet="{0, 2, 3}", Parts="{1, 2}", MaxQ=5, MaxDup=1),
             alib(["Safe", "Meta"], ["Arrives"], "LLive", KindSet="{0, 2, 3}", Parts="{1, 2}", MaxQ=10, MaxDup=1, MaxLoss=3)]),
    "C09": ([arq(["FlushTrue"], KindSet="{0, 2, 3}", MaxQ=4, MaxFlush=1, Parts="{1, 2}", MaxDup=0),
             arq([], ["FlushEnds"], KindSet="{0, 2}", MaxQ=4, MaxLoss=2, MaxDup=0, MaxFlush=1),
             alib(["Safe", "Meta"], ["FlushEnds", "Arrives"], "LLive", KindSet="{2, 3}", Parts="{1, 2}", MaxQ=8, MaxDup=0, MaxLoss=2, MaxFlush=1)],
            [arq(["FlushTrue"], KindSet="{0, 1, 2, 3, 4}", MaxQ=4, MaxFlush=2, MaxSend=3, MaxDup=0),
             arq([], ["FlushEnds"], KindSet="{0, 2, 3}", Parts="{1, 2}", MaxQ=5, MaxLoss=1, MaxFlush=1)]),
}


def wire(deep):
    return dict(module="MCWire", spec="Spec", inv=["Bytes", "RoundTrip", "Cut", "Long"], prop=[], const=dict(Deep=deep))


MODELS.update({
    "C24": ([wire("FALSE")], [wire("TRUE")]), "C21": ([wire("FALSE")], []),
    "C11": ([ses(LIFE), ses(LIFE, MaxDup=1, CanLClose="FALSE"), ses([], ["Connects"], At="A1", Ver="V1", MaxLoss=1)],
            [ses([], ["Connects"], CanLClose="FALSE", CanCancel="FALSE"), ses(LIFE, At="A12", Ver="V2", CanLClose="FALSE"), ses([], ["Connects"], At="A12", CanLClose="FALSE")]),
    "C12": ([ses(["Version", "Refused"], Ver="V29", MaxDup=1, CanLClose="FALSE", Rude="TRUE"), ses(["Version", "Refused"], Ver="V92", MaxDup=1, CanLClose="FALSE", Rude="TRUE")],
            [ses(["Version", "Refused"], At="A111", Ver="V3", CanLClose="FALSE", Rude="TRUE"), ses(["Version", "Refused"], At="A12", Ver="V29", CanLClose="FALSE")]),
    "C13": ([ses(["Reason", "Matched"], SData="TRUE"), ses([], ["BothEnd"], At="A1", Ver="V1", MaxLoss=1, CanLClose="FALSE"),
             ses([], ["BothEnd"], At="A1", Ver="V1", CanCancel="FALSE")],
            [ses(["Reason", "Matched"], MaxSilence=1), ses([], ["BothEnd"], CanLClose="FALSE", CanCancel="FALSE")]),
    "C16": ([ses(["Empty", "Reason"]), ses([], ["Closes"], At="A1", Ver="V1", MaxLoss=1)],
            [ses(["Empty", "Reason"], At="A12", Ver="V2", CanCancel="FALSE"), ses([], ["Closes"], CanCancel="FALSE", CClosing="FALSE")]),
    "C18": ([ses(["OnePerAddress", "Known", "NoLeak", "Reason"], SData="TRUE", CanLClose="FALSE"), ses(["OnePerAddress", "Known", "NoLeak", "Reason"], MaxDup=1, CanLClose="FALSE")],
            [ses(["OnePerAddress", "Known", "NoLeak", "Reason"], SData="TRUE", MaxDup=1, CanLClose="FALSE"),
             ses(["OnePerAddress", "Known", "NoLeak", "Reason"], At="A111", Ver="V3", CanLClose="FALSE"), ses([], ["Connects"], CanLClose="FALSE", CanCancel="FALSE")]),
    "C19": ([ses(["InOrder", "Bounded"], At="A12", CanLClose="FALSE", CanCancel="FALSE", SClosing=0), ses([], ["HandedOut"], At="A1", Ver="V1", MaxLoss=1)],
            [ses(["InOrder", "Bounded"], At="A12", Backlog=2, CanLClose="FALSE"), ses(["InOrder", "Bounded"], At="A123", Ver="V3", CanLClose="FALSE", CanCancel="FALSE", CClosing="FALSE"),
             ses([], ["HandedOut"], At="A12", CanLClose="FALSE", CanCancel="FALSE")]),
})


def config(m):
    out = [f"SPECIFICATION {m['spec']}", "CONSTANTS"] + [f"  {k} {'<-' if k in ('At', 'Ver') else '='} {v}" for k, v in m["const"].items()]
    if m.get("view"):
        out.append("VIEW " + m["view"])
    out += ["INVARIANT " + x for x in m["inv"]] + ["PROPERTY " + x for x in m["prop"]] + ["CHECK_DEADLOCK FALSE"]
    return "\n".join(out) + "\n"


def explore(m, work, workers=4, timeout=600, heap="4g"):
    """(ok, distinct states, generated states, depth, output); ok is None when it did not finish in time"""
    fd, cfg = tempfile.mkstemp(suffix=".cfg", dir=work)
    with os.fdopen(fd, "w") as f:
        f.write(config(m))
    try:
        r = lib.tlc(m["module"] + ".tla", cfg, workdir=work, workers=workers, timeout=timeout, heap=heap)
    except subprocess.TimeoutExpired:
        return None, 0, 0, 0, ""
    o = r.stdout
    g = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue", o)
    ok = "No error has been found" in o
    if not ok and "violated" not in o:
        raise lib.ToolError("TLC did not finish the model:\n" + config(m) + o[-3000:] + r.stderr[-500:])
    d = re.search(r"depth of the complete state graph search is (\d+)", o)
    return ok, int(g.group(2)) if g else 0, int(g.group(1)) if g else 0, int(d.group(1)) if d else 0, o


def explore_all(prop, quick, work, deadline):
    """the models of a property, one after another; entries for the evidence"""
    out = []
    for t, ms in enumerate(MODELS.get(prop, ((), ()))):
        if t and quick:
            break
        for m in ms:
            left = deadline - time.time()
            if left < 5:
                break
            t0 = time.time()
            ok, n, g, d, o = explore(m, work, workers=3, timeout=min(left, 300 if t else 120))
            if ok is False:
                raise lib.ToolError("the model itself breaks what it is to show:\n" + config(m) + o[-3000:])
            out.append({"module": m["module"], "specification": m["spec"], "invariants": m["inv"], "properties": m["prop"],
                        "constants": m["const"], "finished": bool(ok), "distinct_states": n, "states_generated": g, "depth": d,
                        "wall_s": round(time.time() - t0, 1)})
    return out


if __name__ == "__main__":
    import sys, tempfile, shutil, time
    w = tempfile.mkdtemp(prefix="rkvm-")
    try:
        for p in sys.argv[1].split(","):
            for t, ms in enumerate(MODELS[p][:int(sys.argv[3]) if len(sys.argv) > 3 else 2]):
                for m in ms:
                    t0 = time.time()
                    ok, n, g, d, o = explore(m, w, workers=int(sys.argv[2]) if len(sys.argv) > 2 else 4)
                    print(p, "quick" if t == 0 else "thorough", m["spec"], m["inv"], m["prop"],
                          {k: v for k, v in m["const"].items() if str(v) != str(dict(ARQ, **SES).get(k))},
                          "ok" if ok else "VIOLATED", n, g, d, f"{time.time() - t0:.1f}s", flush=True)
                    if not ok:
                        print(o[-2500:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
