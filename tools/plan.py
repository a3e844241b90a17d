"""Which scenario families and models decide which property."""
import time, threading
import gen, gen_life, gen_model, gen_session, gen_threads, gen_wire, lib, models

LEVEL = "model_checking"

# property -> {family: scenarios in the quick tier}
FLOW = {
    "C01": dict(ordered=12, mixed=6, reorder=8, ackloss=10, blackout=3, rawin=8, many=3, frag=2, racing=4, rawwrap=3, outage=4, burst=6, burstfat=2),
    "C02": dict(fragmany=9, frag=8, fragmtu=12, fragrep=8, rawin=14, ordered=8, reorder=4, rawack=4, burstfat=8),
    "C03": dict(reliable=14, mixed=8, reorder=8, ackloss=10, blackout=3, rawin=8, many=4, racing=4, nacks=4, rawwrap=3, outage=4, burst=6),
    "C04": dict(ackloss=25, reliable=12, reorder=8, mixed=8, rawin=10, fragrep=4, rawwrap=4, outage=3, burst=6),
    "C05": dict(seq=25, reorder=14, mixed=8, ackloss=10, rawin=8, rawwrap=10, many=4, burst=6),
    "C06": dict(unrel=20, mixed=8, nacks=10, blackout=4, rawin=8, reorder=8, flush=4, burst=6),
    "C07": dict(mixed=10, reorder=14, rawin=10, rawwrap=10, nacks=10, many=4, ordered=6, frag=2, burst=12, burstfat=3),
    "C08": dict(latency=16, nacks=16, rawack=12, blackout=6, ackloss=8, mixed=8, reliable=6, frag=2, outage=4, burst=6),
    "C09": dict(flush=20, mixed=6, rawack=6, latency=4, flushclose=10),
    "C10": dict(valid=24, mixed=4, flush=2),
}

# families run through LifeTrace and FlowTrace
LIFE = {
    "C11": dict(hand=14, handstep=36, handend=12, incompat=6, closing=4),
    "C12": dict(vers=24, rawvers=16, incompat=16),
    "C13": dict(closing=30, closelate=12, closelost=12, isolation=4, listeners=4),
    "C14": dict(silence=16, darkness=12, keepalive=14),
    "C15": dict(isolation=30, backlog=6, blockacc=4),
    "C16": dict(listeners=30, bindstd=8, blockacc=6, handend=6),
    "C17": dict(hstranger=14, hpeer=16, hgarb=12, hping=10),
    "C18": dict(reconn=24, intruder=16, manyend=8),
    "C19": dict(backlog=24, blockacc=14),
    "C20": dict(pings=20, pingbusy=12, rawpings=16, rawpongs=16, hping=6),
    "C21": dict(ipv6=24),
    "C22": dict(strangers=24, strhello=16),
    "C23": dict(mtus=30, hand=4, incompat=12),
    "C25": dict(refused=14, refhand=14, refclose=16, refping=12),
}

# families run through WireTrace, LifeTrace and FlowTrace
WIRE = {
    "C24": dict(wirein=10, wireout=12, wiremany=4, whand=3, wpings=4, wrawpings=2, wipv6=4, wmtus=4, wincompat=3, wrawvers=1, wintruder=3, wvers=3),
    "C21": dict(wipv6=6, wireout=2),
    "C23": dict(wmtus=6),
}

# families with real threads, run through ApiTrace
THREADS = {
    "C01": dict(thrdata=6), "C03": dict(thrdata=6), "C04": dict(thrdata=6), "C05": dict(thrdata=6), "C09": dict(thrdata=8),
    "C11": dict(thropen=10), "C13": dict(thrclose=14, thropen=8), "C15": dict(thrdata=4, thrclose=4), "C16": dict(thrclose=7, thropen=8),
    "C19": dict(thropen=6), "C20": dict(thropen=4),
}

# behaviours of the model ArqLib that are replayed: what the application sends, and how much of a network
ARQ = {
    "C01": dict(kinds="{3}", parts="{1, 2}"), "C02": dict(kinds="{3}", parts="{2, 3}", send=4),
    "C03": dict(kinds="{2, 3}"), "C04": dict(kinds="{2, 3, 4}", dup=6), "C05": dict(kinds="{1, 4}", parts="{1}"),
    "C06": dict(kinds="{0, 1, 2}", parts="{1}", dup=5), "C07": dict(), "C08": dict(kinds="{2, 3}", loss=10, dup=1), "C09": dict(kinds="{0, 2, 3}", flush=3),
}

# behaviours of the model Session that are replayed
SESSION = {
    "C11": dict(depth=50, lclose="FALSE"), "C12": dict(depth=40, lclose="FALSE", cancel="FALSE"), "C13": dict(depth=60, cancel="FALSE"),
    "C16": dict(depth=30, cancel="FALSE"), "C18": dict(depth=60, cancel="FALSE", lclose="FALSE"),
    "C19": dict(depth=120, cancel="FALSE", lclose="FALSE", at="Crowd", lazy="TRUE", dup=3),
}


def scen(fams, seed, scale=1, tag=""):
    out = []
    for f, n in fams.items():
        for k in range(n * scale):
            s = (gen.FLOW_FAMILIES.get(f) or gen_life.LIFE_FAMILIES.get(f) or gen_wire.WIRE_FAMILIES.get(f) or gen_threads.THREAD_FAMILIES[f])(seed, k)
            s["name"] += tag
            out.append(s)
    return out


def replays(run, seed, n, tag):
    bs = gen_model.behaviours(run.work, n, seed, depth=40, **ARQ[run.prop])
    scs = [gen_model.replay(f"arqlib{tag}_{k}", seed, b) for k, b in enumerate(bs)]
    recs = run.scenarios(scs, "m" + tag, ["FlowTrace"])
    same = sum(gen_model.agreement(s, recs[s["name"]])[0] for s in scs)
    r = run.cov.setdefault("model_behaviours_replayed", {"behaviours": 0, "steps": 0, "deliveries_as_predicted": 0})
    r["behaviours"] += len(scs)
    r["steps"] += sum(len(b["h"]) for b in bs)
    r["deliveries_as_predicted"] += same


def lives(run, seed, n, tag):
    bs = gen_session.behaviours(run.work, n, seed, **SESSION[run.prop])
    scs = [gen_session.replay(f"session{tag}_{k}", seed, b) for k, b in enumerate(bs)]
    recs = run.scenarios(scs, "s" + tag, ["LifeTrace", "FlowTrace"])
    r = run.cov.setdefault("model_behaviours_replayed", {"behaviours": 0, "steps": 0, "requests": 0, "requests_answered_as_predicted": 0})
    r["behaviours"] += len(scs)
    r["steps"] += sum(len(b["h"]) for b in bs)
    for s in scs:
        a, b = gen_session.agreement(s, recs[s["name"]])
        r["requests_answered_as_predicted"] += a
        r["requests"] += b


def check(run):
    quick = run.tier == "quick"
    failed = []

    def closed():
        try:
            run.cov["models"] = models.explore_all(run.prop, quick, run.work, time.time() + (200 if quick else 600))
        except Exception as e:          # noqa: told by the main thread
            failed.append(e)

    th = threading.Thread(target=closed)
    th.start()
    rounds = 1 if quick else 100000
    try:
        for k in range(rounds):
            tag = f"_{k}" if k else ""
            for fams, kinds in ((FLOW.get(run.prop), ["FlowTrace"]), (LIFE.get(run.prop), ["LifeTrace", "FlowTrace"]),
                                (WIRE.get(run.prop), ["WireTrace", "LifeTrace", "FlowTrace"]),
                                (THREADS.get(run.prop), ["ApiTrace"])):
                if fams:
                    run.scenarios(scen(fams, run.seed + 1000 * k, 3 if quick else 8, tag), f"f{k}", kinds)
            if run.prop in ARQ:
                replays(run, run.seed + 1000 * k, 60 if quick else 200, tag)
            if run.prop in SESSION:
                lives(run, run.seed + 1000 * k, 60 if quick else 200, tag)
            if run.viol or (not quick and run.left(700) < 60):
                break
    finally:
        th.join()
    if failed:
        raise failed[0]
    run.cov["states"] += sum(m["distinct_states"] for m in run.cov["models"])
    run.cov["transitions"] += sum(m["states_generated"] for m in run.cov["models"])


def claimed():
    return set(FLOW) | set(LIFE) | set(WIRE)


def technique(p):
    return "TLA+ trace specification (TLC) over recordings of the real crate; TLC model checking of the protocol model"


def note(p):
    return "TLC decides for every recorded run whether the TLA+ specification allows it; runs are generated over loss, duplication, delay, reordering and call schedules under a captured network and clock"
