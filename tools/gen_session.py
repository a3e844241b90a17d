"""Scenarios from behaviours of the model Session (SessionSim): TLC simulates clients of several addresses, one after
another from each, and a network that holds back and repeats; raw clients say the same to the real listener."""
import json, os
import lib
from gen_life import Sc

SIM = """SPECIFICATION SSpec
CONSTANTS
  At <- {at}
  Ver <- V{at}
  Good = {{10, 11}}
  Backlog = 10
  MaxDup = {dup}
  MaxLoss = 0
  Hold = TRUE
  Tells = 1
  MaxSilence = 0
  CanCancel = {cancel}
  CanLClose = {lclose}
  Rude = FALSE
  CClosing = TRUE
  SClosing = {sclosing}
  SData = TRUE
  Depth = {depth}
  Lazy = {lazy}
INVARIANT Dump OnePerAddress Known InOrder Bounded Empty
CHECK_DEADLOCK FALSE
"""


def behaviours(work, n, seed, dup=20, cancel="TRUE", lclose="TRUE", sclosing=20, depth=40, at="Many", lazy="FALSE"):
    cfg = os.path.join(work, "ssim.cfg")
    with open(cfg, "w") as f:
        f.write(SIM.format(dup=dup, cancel=cancel, lclose=lclose, sclosing=sclosing, depth=depth, at=at, lazy=lazy))
    r = lib.tlc("SessionSim.tla", cfg, workdir=work, simulate=f"num={n}", extra=["-depth", "600", "-seed", str(seed)], timeout=300)
    out, seen = [], set()
    for line in r.stdout.splitlines():
        if line.startswith('"HIST '):
            b = json.loads(json.loads(line)[5:])
            k = str(b["h"][:-1])
            if k not in seen:
                seen.add(k)
                out.append(b)
    if len(out) < n // 2 or "violated" in r.stdout:
        raise lib.ToolError("simulating Session failed:\n" + r.stdout[-2000:])
    return out


def replay(name, seed, b):
    s = Sc(name, seed, step=20)
    r = s.r
    s.op("bind", "L").op("listen", "L").op("auto", 0)
    ps = [f"p{x}" for x in sorted(set(b["at"]))]
    for p in ps:
        s.op("raw", p).op("autoack", p, 1)
    had, mid, want, closed = set(), {}, [], False
    for st in b["h"]:
        if st[0] == "up":
            _, k, x, w, ans = st
            p = f"p{x}"
            if k == "req1":
                s.op("rawsend", p, "L", {"k": "req1", "ver": b["ver"][w - 1]})
            elif k == "req2":
                if ans == "new":
                    if p in had:
                        s.op("mark", "epoch", [p, "L"])
                    had.add(p)
                s.op("rawsend", p, "L", {"k": "req2", "mtu": 1400, "guid": w})
            elif k == "creq":
                s.op("rawsend", p, "L", {"k": "frames", "seq": 0, "frames": [{"rel": 3, "ri": 0, "oi": 0, "ctl": "connreq"}]})
            elif k == "data":
                s.op("rawset", p, "seq", 1).op("rawset", p, "ridx", 1)
                mid.setdefault(w, s.id())
                s.op("rawmsg", p, "L", 2, 9, mid[w])
            elif k == "disc":
                s.op("rawsend", p, "L", {"k": "disc"})
            if k in ("req1", "req2"):
                want.append([p, k, ans])
            if r.random() < 0.3:
                s.op("pull", p)
        elif st[0] == "accept":
            s.op("accept", "L", f"e{st[1]}")
        elif st[0] == "ssend":
            s.msg(f"e{st[1]}", 2, 20)
        elif st[0] == "sclose":
            s.op("close", f"e{st[1]}")
        elif st[0] == "tick":
            s.op("adv", 700)
            for p in ps:
                s.op("pull", p)
        elif st[0] == "lclose":
            s.op("lclose", "L").op("adv", 20)
            closed = True
    s.op("mark", "end")
    if closed:
        s.op("adv", 2000).op("quiesce", 20000, 50, 60)
    else:
        for k in range(len(b["out"]) + 1, b["n"] + 1):
            s.op("accept", "L", f"e{k}")
        s.op("adv", 100)
        s.probe(1)
        for p in ps:
            s.op("pull", p)
        s.fin(5000)
    s.cfg["model"] = want
    return s.done()


ANS = ("rep1", "rep2", "incompat", "already")


def agreement(sc, evs):
    """how many requests were answered as the model says, of how many (a statistic, not a verdict)"""
    want, ok, n = sc["cfg"]["model"], 0, 0
    k = -1
    got = []
    for e in evs + [{"e": "mark", "what": "end"}]:
        req = e["e"] == "rawtx" and e["k"] in ("req1", "req2")
        end = e["e"] == "mark" and e["what"] == "end"
        if req or end:
            if 0 <= k < len(want):
                w = want[k][2]
                ok += got in ([[]] if w == "none" else [["rep2"], ["already"]] if w == "either" else [["rep2" if w == "new" else w]])
                n += 1
            k, got = k + 1, []
            if end:
                break
        elif e["e"] == "tx" and e["k"] in ANS and 0 <= k < len(want) and e["dst"] == want[k][0]:
            got.append(e["k"])
    return ok, n
