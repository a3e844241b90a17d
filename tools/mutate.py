#!/usr/bin/env python3
"""Is what the closed models promise worth anything? Each entry breaks a model in one place; TLC must then report the
named invariant or property broken. Run by hand: python3 tools/mutate.py [n ...]"""
import os, re, shutil, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib, models
from models import arq, alib, ses

M = [
    # RecvSide and Arq
    ("Ordered", "RecvSide.tla", "ELSE RDrain([R1 EXCEPT !.obuf = (o :>", "ELSE RDrain([R1 EXCEPT !.oexp = IF o > @ THEN o ELSE @, !.obuf = (o :>", arq(["Ordered"])),
    ("Whole1", "RecvSide.tla", "IF Cardinality(DOMAIN c.parts) # c.fs", "IF Cardinality(DOMAIN c.parts) < c.fs - 1", arq(["Whole1"], Parts="{3}", MaxSend=1)),
    ("NoClash", "Arq.tla", "fi' = IF n > 1 THEN fi + 1 ELSE fi", "fi' = fi", arq(["NoClash"], Parts="{2}")),
    ("ReliableOnce", "RecvSide.tla", "IN  IF RFresh(R, ri) THEN", "IN  IF TRUE THEN", arq(["ReliableOnce"], KindSet="{2}")),
    ("ReliableOnce", "RecvSide.tla", "IN  IF s >= R1.sexp THEN", "IN  IF s + 1 >= R1.sexp THEN", arq(["ReliableOnce"], KindSet="{4}", Parts="{1}", MaxDup=2)),
    ("Sequenced", "RecvSide.tla", "IN  IF s >= R1.sexp THEN", "IN  IF TRUE THEN", arq(["Sequenced"], KindSet="{1, 4}", Parts="{1}")),
    ("Unreliable", "Arq.tla", "/\\ un' = IF f.r >= 2 THEN", "/\\ un' = IF f.r >= 0 THEN", arq(["Unreliable"], KindSet="{0}", Parts="{1}")),
    ("Genuine", "Arq.tla", "[x \\in 1 .. n |-> Frame(kd, Len(msgs) + 1", "[x \\in 1 .. n |-> Frame(IF kd = 4 THEN 2 ELSE kd, Len(msgs) + 1", arq(["Genuine"], KindSet="{4}", Parts="{1}")),
    ("AckTrue", "Arq.tla", "/\\ back' = back \\cup {q}", "/\\ back' = back \\cup {q, Len(dg) - 1}", arq(["AckTrue"], KindSet="{2}", Parts="{1}")),
    ("GapTrue", "RecvSide.tla", "IvAdd(@, R.qnext, q - 1) ELSE @", "IvAdd(@, R.qnext, q + 1) ELSE @", arq(["GapTrue"], KindSet="{2}", Parts="{1}")),
    ("FlushTrue", "Arq.tla", "/\\ pend = << >> /\\ DOMAIN un = {}\n    /\\ flush'", "/\\ DOMAIN un = {}\n    /\\ flush'", arq(["FlushTrue"], KindSet="{2}", MaxFlush=1, MaxDup=0)),
    ("FlushTrue", "Arq.tla", "{z \\in DOMAIN un : un[z] # dg[q + 1]}", "{z \\in DOMAIN un : un[z].key > dg[q + 1].key}", arq(["FlushTrue"], KindSet="{2}", MaxFlush=1, MaxDup=0)),
    ("Arrives", "Arq.tla", "{z \\in DOMAIN un : un[z] # dg[q + 1]}", "{z \\in DOMAIN un : un[z].key > dg[q + 1].key}", arq([], ["Arrives"], MaxLoss=2)),
    ("Arrives", "Arq.tla", "/\\ WF_vars(\\E k \\in DOMAIN un : Missing(k) /\\ Repeat(k))", "", arq([], ["Arrives"])),
    ("LastArrives", "RecvSide.tla", "ROut([R1 EXCEPT !.sexp = s + 1]", "ROut([R1 EXCEPT !.sexp = s + 2]", arq([], ["LastArrives"], KindSet="{1, 4}", Parts="{1}", MaxLoss=2)),
    ("FlushEnds", "Arq.tla", "/\\ pend = << >> /\\ DOMAIN un = {}\n", "/\\ pend = << >> /\\ DOMAIN un = {} /\\ Len(dg) = Len(msgs)\n", arq([], ["FlushEnds"], KindSet="{2}", MaxLoss=2, MaxDup=0, MaxFlush=1)),
    # ArqLib
    ("Meta", "ArqLib.tla", "/\\ meta' = [k \\in DOMAIN r[1] \\ hit |-> r[1][k]]", "/\\ meta' = r[1]", alib(["Meta"], KindSet="{2, 3}", MaxDup=0)),
    ("Resend", "ArqLib.tla", "Due == {k \\in DOMAIN un : meta[k].due}", "Due == {k \\in DOMAIN un : meta[k].due \\/ meta[k].age > 0}", alib([], models.REFINES, KindSet="{2, 3}", MaxDup=0)),
    # Wire
    ("RoundTrip", "Wire.tla", "E16(v) == <<v \\div 256, v % 256>>", "E16(v) == <<v % 256, v \\div 256>>", models.wire("FALSE")),
    ("RoundTrip", "Wire.tla", "fx |-> IF frag THEN U32(b, pf + 6) ELSE 0", "fx |-> IF frag THEN U32(b, pf + 5) ELSE 0", models.wire("FALSE")),
    ("Cut", "Wire.tla", "U16(b, 34) = n - 35", "U16(b, 34) >= n - 35", models.wire("FALSE")),
    ("Long", "Wire.tla", "[ok |-> p = Len(b) + 1, r |-> acc]", "[ok |-> TRUE, r |-> acc]", models.wire("FALSE")),
    # Session
    ("OnePerAddress", "Session.tla", "IF s # 0 THEN ", "IF s # 0 /\\ Live(s) THEN ", ses(["OnePerAddress"], CanLClose="FALSE")),
    ("Known", "Session.tla", "/\\ cur' = [cur EXCEPT ![x] = n]", "/\\ cur' = [cur EXCEPT ![x] = IF n > 1 THEN 1 ELSE n]", ses(["Known"], CanLClose="FALSE")),
    ("Matched", "Session.tla", "[] p.k = \"rep2\" /\\ st = \"req2\" -> [cl EXCEPT ![a].st = \"hello\"]", "[] p.k = \"rep2\" /\\ st = \"req2\" -> [cl EXCEPT ![a].st = \"up\", ![a].res = \"ok\"]", ses(["Matched"], CanLClose="FALSE")),
    ("OneEach", "Session.tla", "IF s # 0 THEN ", "IF s # 0 /\\ ses[s].est THEN ", ses(["OneEach"], MaxDup=1, CanLClose="FALSE")),
    ("Version", "Session.tla", "ELSE IF lst # \"open\" \\/ V[x] = 0 \\/", "ELSE IF lst # \"open\" \\/", ses(["Version"], CanLClose="FALSE", Ver="V29", Rude="TRUE")),
    ("Version", "Session.tla", "THEN [V EXCEPT ![p.a] = Ver[p.w]] ELSE V", "THEN [V EXCEPT ![p.a] = IF @ = 0 THEN Ver[p.w] ELSE @] ELSE V", ses(["Version"], CanLClose="FALSE")),
    ("Refused", "Session.tla", "Down(IF Ver[p.w] \\in Good THEN \"rep1\" ELSE \"incompat\", p.a, 0)", "Down(\"incompat\", p.a, 0)", ses(["Refused"], CanLClose="FALSE", At="A1", Ver="V1")),
    ("Reason", "Session.tla", "(IF Hold THEN Gone(p, keep) ELSE {q \\in Gone(p, keep) : q.a = x => (q.up /\\ q.w = a)})", "Gone(p, keep)", ses(["Reason"], CanLClose="FALSE", Hold="TRUE")),
    ("NoLeak", "Session.tla", "THEN data \\cup {[by |-> s, from |-> p.w, up |-> TRUE]}", "THEN data \\cup {[by |-> s, from |-> 1, up |-> TRUE]}", ses(["NoLeak"], CanLClose="FALSE")),
    ("InOrder", "Session.tla", "/\\ queue' = Append(queue, n)", "/\\ queue' = <<n>> \\o queue", ses(["InOrder"], At="A12", Backlog=2, CanLClose="FALSE", CanCancel="FALSE", SClosing=0)),
    ("Bounded", "Session.tla", "\\/ Len(queue) >= Backlog", "\\/ Len(queue) > Backlog", ses(["Bounded"], At="A12", CanLClose="FALSE", CanCancel="FALSE", SClosing=0)),
    ("Empty", "Session.tla", "/\\ lst = \"closing\" /\\ \\A x \\in Addrs : cur[x] = 0", "/\\ lst = \"closing\" /\\ \\A x \\in Addrs : IF cur[x] = 0 THEN TRUE ELSE ~Live(cur[x])", ses(["Empty"])),
    ("Connects", "Session.tla", "[] p.k = \"req2\" -> UNCHANGED <<V, data>> /\\ Req2(p, keep)",
     "[] p.k = \"req2\" -> UNCHANGED <<V, data>> /\\ IF cur[p.a] # 0 THEN UNCHANGED <<ses, cur, queue>> /\\ net' = Cut(Gone(p, keep)) ELSE Req2(p, keep)",
     ses([], ["Connects"], At="A1", Ver="V1", MaxLoss=1)),
    ("BothEnd", "Session.tla", "WF_vars(CSilence(a) /\\ silences' = silences)", "TRUE", ses([], ["BothEnd"], At="A1", Ver="V1", MaxLoss=1, CanLClose="FALSE")),
    ("Closes", "Session.tla", "ses' = [s \\in DOMAIN ses |-> IF Live(s) THEN [ses[s] EXCEPT !.st = \"closed\", !.cause = \"listener\"] ELSE ses[s]]",
     "ses' = [s \\in DOMAIN ses |-> IF Live(s) /\\ s \\in Range(out) THEN [ses[s] EXCEPT !.st = \"closed\", !.cause = \"listener\"] ELSE ses[s]]",
     ses([], ["Closes"], At="A1", Ver="V1", CClosing="FALSE", CanCancel="FALSE")),
    ("HandedOut", "Session.tla", "/\\ queue # << >> /\\ lst # \"closed\"", "/\\ queue # << >> /\\ lst # \"closed\" /\\ Live(Head(queue))", ses([], ["HandedOut"], At="A1", Ver="V1")),
]


def main():
    pick = [int(x) for x in sys.argv[1:]]
    good = bad = 0
    for n, (prop, fn, old, new, m) in enumerate(M):
        if m is None or (pick and n not in pick):
            continue
        w = tempfile.mkdtemp(prefix="rkmu-")
        try:
            sp = os.path.join(w, "spec")
            shutil.copytree(os.path.join(lib.VERIF, "spec"), sp)
            src = open(os.path.join(sp, fn)).read()
            assert src.count(old) >= 1, (n, "text not found", old)
            open(os.path.join(sp, fn), "w").write(src.replace(old, new, 1))
            lib.SPEC = sp
            t = time.time()
            ok, st, g, d, o = models.explore(m, w, workers=6, timeout=300)
            hit = ok is False and (f"Invariant {prop} is violated" in o or f"roperty {prop} is violated" in o
                                   or ("Temporal properties were violated" in o or "emporal property" in o) and prop in m["prop"])
            good, bad = good + hit, bad + (not hit)
            print(n, prop, fn, "broken as it should be" if hit else "NOT BROKEN: " + re.sub(r"\s+", " ", o)[-600:], f"{time.time() - t:.1f} s", flush=True)
        finally:
            shutil.rmtree(w, ignore_errors=True)
    print(good, "of", good + bad)
    return bad > 0


if __name__ == "__main__":
    sys.exit(main())
