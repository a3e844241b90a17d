"""Scenarios from behaviours of the model ArqLib: TLC simulates it, every behaviour is replayed into the real crate."""
import json, os
import lib
from gen import Sc

SIM = """SPECIFICATION LSpec
CONSTANTS
  KindSet = {kinds}
  Parts = {parts}
  MaxSend = {send}
  MaxQ = 90
  MaxDup = {dup}
  MaxLoss = {loss}
  MaxFlush = {flush}
  M = 16777216
  F = 65536
  Period = 60
  Srtt0 = 0
  AgeMax = 12000
  Depth = {depth}
INVARIANT Safe Meta Dump
CHECK_DEADLOCK FALSE
"""


def behaviours(work, n, seed, kinds="{0, 1, 2, 3, 4}", parts="{1, 2}", send=6, dup=3, loss=6, depth=30, flush=0):
    """n behaviours: [{"h": steps, "d": messages delivered, "o": how many of them optionally, "t": datagrams}]"""
    cfg = os.path.join(work, "sim.cfg")
    with open(cfg, "w") as f:
        f.write(SIM.format(kinds=kinds, parts=parts, send=send, dup=dup, loss=loss, depth=depth, flush=flush))
    r = lib.tlc("ArqLib.tla", cfg, workdir=work, simulate=f"num={n}", extra=["-depth", "600", "-seed", str(seed)], timeout=300)
    out, seen = [], set()
    for line in r.stdout.splitlines():
        if line.startswith('"HIST '):
            b = json.loads(json.loads(line)[5:])
            k = str(b["h"][:-1])          # TLC looks at every last step
            if k not in seen:
                seen.add(k)
                out.append(b)
    if len(out) < n // 2 or "violated" in r.stdout:
        raise lib.ToolError("simulating ArqLib failed:\n" + r.stdout[-2000:])
    return out


def replay(name, seed, b):
    """the behaviour as a scenario. A dozen Reliable messages first bring the measured round trip to 0."""
    s = Sc(name, seed)
    r = s.r
    s.open(1)
    a, z, link = r.choice([("c1", "s1", ("c1", "L")), ("s1", "c1", ("L", "c1"))])
    for _ in range(12):
        s.msg(a, 2, 20)
    s.op("adv", 530)
    s.op("auto", 0).op("base", *link)
    ids = {}
    for st in b["h"]:
        if st[0] == "send":
            ln = r.randrange(4, 1339) if st[2] == 1 else 1340 * (st[2] - 1) + r.randrange(1, 1340)
            ids[len(ids) + 1] = s.msg(a, st[1], ln)
        elif st[0] == "flush":
            s.op("flush", a)
        elif st[0] == "tick":
            s.op("adv", 60)
        else:
            s.op({"dl": "dlq", "dup": "dupq", "ack": "dla", "nack": "dln", "lose": "loseq", "loseack": "losea",
                  "losenack": "losen"}[st[0]], *link, st[1])
    s.op("mark", "end")
    s.op("auto", 1).op("quiesce", 30000, 50, 130)
    s.cfg["model"] = {"to": z, "ids": {str(v): k for k, v in ids.items()}, "d": b["d"], "o": b["o"], "t": b["t"], "link": list(link)}
    return s.done()


def agreement(sc, evs):
    """did the library deliver what the model said, at the end of the behaviour? (a statistic, not a verdict)"""
    m = sc["cfg"]["model"]
    got, n, miss = [], 0, 0
    on = False
    for e in evs:
        if e["e"] == "mark":
            break
        if e["e"] == "miss":
            miss += 1
        if e["e"] == "dlv" and e.get("ep") == m["to"] and str(e.get("m")) in m["ids"]:
            got.append(m["ids"][str(e["m"])])
    # the repetition of an Unreliable datagram may be handed out or not
    return miss == 0 and list(dict.fromkeys(got)) == list(dict.fromkeys(m["d"])), miss
