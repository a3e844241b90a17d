------------------------------ MODULE FlowTrace ------------------------------
(* Trace specification of one direction of one connection ("flow"): A sends messages to B.    *)
(* The file named by TRACE holds recorded flows, one event per line, each flow starting with  *)
(* a "reset" line. The state follows the recording; the receiving half is RecvSide applied to *)
(* the datagrams that arrived, the sending half is bound by SendSide. Whatever the recording  *)
(* shows that the specification does not allow is noted in s.v with the property it breaks.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Ivl, RecvSide, SendSide

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
M24 == 16777216

VARIABLES i, s
vars == <<i, s>>

Soon == 200          \* ms: what is due is delivered within this time
TickSlack == 110     \* ms: the next flush happens within this time

Init0(seg, ar, br, micro, t) ==
    [seg |-> seg, ar |-> ar, br |-> br, micro |-> micro, t |-> t, mtu |-> AskedMtu,
     aopen |-> FALSE, bopen |-> FALSE, acl |-> -1, bcl |-> -1, bacc |-> FALSE, bstall |-> FALSE, bend |-> FALSE,
     from |-> t,         \* since when B's application has been receiving
     fair |-> -1, lastS |-> t,
     snd |-> << >>,      \* sends in order: [kd, len, st] with st "call", "ok" or the error; st "no" when it had to be refused
     R |-> RInit,
     duO |-> << >>, duS |-> << >>, duR |-> {}, duU |-> {}, opU |-> << >>, dl |-> {},
     outO |-> 0, outS |-> 0, outR |-> {}, outU |-> {}, arrS |-> 0,
     un |-> EmptyFn, qmap |-> EmptyFn, ackd |-> {}, rec |-> {}, rnext |-> 0, qn |-> 0, used |-> {}, u01 |-> {},
     mx |-> -1, srtt |-> RtoMin, rto |-> RtoMin, rtoT |-> 0, pf |-> EmptyFn, ackP |-> {}, txP |-> {},
     fl |-> EmptyFn, idleT |-> -1,
     acked |-> {}, nacked |-> {}, chk |-> 0]

CNames == {"dlv", "tx", "rx", "acks", "nacks", "resent", "flush", "send", "quiet", "complete", "flows"}
Cnt0 == [c \in CNames |-> 0]
Init == i = 0 /\ s = [f |-> Init0("", 0, 0, 0, 0), v |-> << >>, nv |-> 0, c |-> Cnt0]

(* ------------------------------------------------------------------ findings *)
(* x is [f |-> flow state, b |-> set of <<property, why>>] *)
Bad(x, p, why) == [x EXCEPT !.b = @ \cup {<<p, why>>}]
BadIf(x, cond, p, why) == IF cond THEN Bad(x, p, why) ELSE x

KindProp(kd) == CASE kd = 0 -> "C06" [] kd = 1 -> "C05" [] kd = 2 -> "C03" [] kd = 3 -> "C01" [] kd = 4 -> "C05" [] OTHER -> "C03"

(* ------------------------------------------------------------------ helpers on the flow state *)
Kd(f, m) == IF m \in 1 .. Len(f.snd) THEN f.snd[m].kd ELSE -1
Valid(f, m) == m \in 1 .. Len(f.snd) /\ f.snd[m].st \in {"call", "ok"}
Accepted(f, m) == f.snd[m].st = "ok"

Closing(f) == f.acl >= 0 \/ f.bcl >= 0
Live(f) == f.aopen /\ f.bopen /\ ~Closing(f)

AllSettled(f) ==      \* everything that was accepted is acknowledged or at least on the wire
    /\ DOMAIN f.un = {}
    /\ \A m \in 1 .. Len(f.snd) : f.snd[m].st \in {"ok", "call"} => IF f.snd[m].kd >= 2 THEN IvIn(f.ackP, m) ELSE IvIn(f.u01, m)

(* --------------------------------------------------- what must have happened by now, time having passed *)
Overdue(f, T) ==
    /\ T - f.from > Soon
    /\ \/ (Len(f.duO) > 0 /\ T - f.duO[1].t > Soon)
       \/ (Len(f.duS) > 0 /\ T - f.duS[1].t > Soon)
       \/ \E d \in f.duR \cup f.duU : T - d.t > Soon

CheckDue(x, T) ==
    LET f == x.f IN
    IF f.br = 0 \/ f.micro = 1 \/ ~f.bopen \/ ~f.bacc \/ f.bstall \/ f.bend \/ f.bcl >= 0 \/ T - f.from <= Soon THEN x
    ELSE
    LET x1 == IF Len(f.duO) > 0 /\ T - f.duO[1].t > Soon
              THEN BadIf(Bad(x, "C01", "ordered message not delivered"), f.duO[1].fg, "C02", "fragmented message not delivered") ELSE x
        x2 == IF Len(f.duS) > 0 /\ T - f.duS[1].t > Soon THEN Bad(x1, "C05", "sequenced message not delivered") ELSE x1
        x3 == BadIf(x2, \E d \in f.duR : T - d.t > Soon, "C03", "reliable message not delivered")
        x4 == BadIf(x3, \E d \in f.duU : T - d.t > Soon, "C06", "unreliable message that arrived not delivered")
    IN  IF x4.b = x.b THEN x
        ELSE [x4 EXCEPT !.f.duO = << >>, !.f.duS = << >>, !.f.duR = {}, !.f.duU = {}]

Deadline(f, u) ==
    IF u.nk >= 0 THEN u.nk + TickSlack
    ELSE LET w == Backoff(f.rto, u.n - 1)
         IN  Max2(u.t + w + w \div 10, f.rtoT) + TickSlack

CheckResend(x, T) ==
    LET f == x.f IN
    IF f.ar = 0 \/ f.micro = 1 \/ ~f.aopen \/ f.acl >= 0 \/ DOMAIN f.un = {} THEN x
    ELSE LET late == {k \in DOMAIN f.un : T > Deadline(f, f.un[k])}
         IN  IF late = {} THEN x
             ELSE [Bad(x, "C08", "unacknowledged data not sent again in time")
                     EXCEPT !.f.un = [k \in DOMAIN f.un |-> IF k \in late THEN [f.un[k] EXCEPT !.t = T, !.nk = -1, !.n = 1, !.lt = TRUE] ELSE f.un[k]]]

CheckFlush(x, T) ==
    LET f == x.f IN
    IF f.ar = 0 \/ f.micro = 1 THEN x
    ELSE IF f.acl >= 0
         THEN IF \E k \in DOMAIN f.fl : T - Max2(f.fl[k].t, f.acl) > 300
              THEN [Bad(Bad(x, "C09", "flush() does not return though the connection is closed"), "C13", "flush() does not return though the connection is closed") EXCEPT !.f.fl = EmptyFn]
              ELSE x
    ELSE IF f.idleT >= 0 /\ DOMAIN f.fl # {} /\ T - f.idleT > 300
              /\ \E k \in DOMAIN f.fl : T - f.fl[k].t > 300
         THEN [Bad(x, "C09", "flush() does not return though everything is acknowledged") EXCEPT !.f.fl = EmptyFn]
         ELSE x

TimePasses(x, T) ==
    IF T <= x.f.t THEN x
    ELSE LET x0 == IF Overdue(x.f, T) THEN CheckDue(x, T) ELSE x
             x1 == IF T - x.f.chk >= 25 THEN CheckFlush(CheckResend(x0, T), T) ELSE x0
         IN  [x1 EXCEPT !.f.t = T,
                        !.f.chk = IF T - x.f.chk >= 25 THEN T ELSE @,
                        !.f.rec = IF @ = {} THEN @ ELSE {r \in @ : T - r[2] <= 20}]

Idle(x, T) ==
    [x EXCEPT !.f.idleT = IF AllSettled(x.f) THEN (IF @ < 0 THEN T ELSE @) ELSE -1]

(* ------------------------------------------------------------------ sending *)
OnSend(x, e) ==
    LET want == SendVerdict(e.len, e.b0, e.kd, x.f.mtu, FALSE)
    IN  [x EXCEPT !.f.snd = Append(@, [kd |-> e.kd, len |-> e.len, b0 |-> e.b0, st |-> IF want = "ok" THEN "call" ELSE want]),
                  !.f.idleT = -1, !.f.lastS = e.t]

OnSendRet(x, e) ==
    LET f == x.f
        m == e.m
        r == f.snd[m]
        want == IF r.st = "call" THEN "ok" ELSE r.st
        mayclosed == f.acl >= 0
        y == BadIf(x, ~(e.res = want \/ (mayclosed /\ e.res = "ConnectionClosed" /\ want # "PacketHeaderError")),
                   "C10", "send() returned " \o e.res \o " instead of " \o want)
    IN  IF want = "ok" THEN [y EXCEPT !.f.snd[m].st = IF e.res = "ok" THEN "ok" ELSE "lost"]
        ELSE y

TxFrame(x, fr, q, T) ==
    LET f == x.f
        m == fr.m
        k == Unwrap(fr.ri, f.rnext, M24)
        own == m > 0
        kd == Kd(f, m)
        x1 == IF m = -1 THEN BadIf(Bad(x, KindProp(fr.r), "data on the wire that nobody sent"), fr.fg = 1, "C02", "fragment with wrong data")
              ELSE IF m = -2 THEN Bad(x, "C15", "message of another connection on the wire")
              ELSE IF own /\ ~Valid(f, m) /\ f.snd[m].st # "lost" THEN Bad(x, "C10", "refused message on the wire")
              ELSE IF own /\ kd # fr.r THEN Bad(Bad(x, KindProp(kd), "sent with the wrong reliability"), "C24", "sent with the wrong reliability")
              ELSE x
    IN
    IF fr.r < 2 THEN
        IF ~own THEN x1
        ELSE [BadIf(x1, IvIn(f.u01, m), "C06", "unreliable message transmitted twice") EXCEPT !.f.u01 = IvAdd(@, m, m)]
    ELSE
    LET again == k \in DOMAIN f.un
        gone  == IvIn(f.ackd, k)
        x2 == BadIf(x1, gone /\ f.micro = 0 /\ f.acl < 0 /\ ~\E r \in f.rec : r[1] = k, "C08", "sent again after its acknowledgement")
    IN  IF gone THEN x2
        ELSE IF again THEN
            LET u == f.un[k]
                w == Backoff(f.rto, u.n - 1)
                least == Max2(Backoff(RtoMin, u.n - 1) - 2, (w * 8) \div 10)
            IN  [BadIf(x2, f.micro = 0 /\ ~u.pm /\ T - u.t < least, "C08", "sent again too early")
                   EXCEPT !.f.un[k] = [u EXCEPT !.t = T, !.n = u.n + 1, !.q = q, !.nk = -1, !.pm = FALSE, !.lt = FALSE],
                          !.f.qmap = (q :> k) @@ @]
        ELSE [x2 EXCEPT !.f.un = (k :> [m |-> m, t |-> T, first |-> T, n |-> 1, q |-> q, nk |-> -1, pm |-> FALSE, lt |-> FALSE, fx |-> fr.fx, fs |-> IF fr.fg = 1 THEN fr.fs ELSE 1]) @@ @,
                        !.f.rnext = Max2(@, k + 1),
                        !.f.qmap = (q :> k) @@ @,
                        !.f.txP = IF own THEN IvAdd(@, m, m) ELSE @]

RECURSIVE TxFrames(_, _, _, _, _)
TxFrames(x, frs, j, q, T) ==
    IF j > Len(frs) THEN x ELSE TxFrames(TxFrame(x, frs[j], q, T), frs, j + 1, q, T)

OnTx(x, e) ==
    IF x.f.ar = 0 THEN x
    ELSE
    LET f == x.f
        q == Unwrap(e.q, f.qn, M24)
        x1 == BadIf(x, IvIn(f.used, q), "C08", "sequence number used twice")
        x2 == IF e.sz > f.mtu - IpUdp THEN Bad(Bad(x1, "C02", "datagram larger than the MTU allows"), "C23", "datagram larger than the MTU allows") ELSE x1
        x3 == TxFrames(x2, e.fr, 1, q, e.t)
    IN  Idle([x3 EXCEPT !.f.used = IvAdd(@, q, q), !.f.qn = Max2(@, q + 1)], e.t)

(* an acknowledgement reaches A *)
AckedFrames(f, rs) ==
    {f.qmap[q] : q \in {z \in DOMAIN f.qmap : \E j \in 1 .. Len(rs) : rs[j][1] <= z % M24 /\ z % M24 <= rs[j][2]}} \cap DOMAIN f.un

HiOf(f, r) ==
    IF f.qn = 0 THEN -1
    ELSE IF r[1] <= (f.qn - 1) % M24 /\ (f.qn - 1) % M24 <= r[2] THEN f.qn - 1
    ELSE Unwrap(r[2], f.qn - 1, M24)

RECURSIVE Samples(_, _, _, _)
Samples(f, ks, T, srtt) ==      \* in the order of the sequence numbers
    IF ks = {} THEN srtt
    ELSE LET k == CHOOSE a \in ks : \A b \in ks : f.un[a].q <= f.un[b].q
         IN  Samples(f, ks \ {k}, T, Smooth(srtt, T - f.un[k].t))

RECURSIVE NoteAcked(_, _, _)
NoteAcked(f, ks, T) ==
    IF ks = {} THEN f
    ELSE LET k == CHOOSE a \in ks : TRUE
             u == f.un[k]
             got == (IF u.m \in DOMAIN f.pf THEN f.pf[u.m] ELSE {}) \cup {u.fx}
             full == Cardinality(got) = u.fs
             f1 == [f EXCEPT !.ackd = IvAdd(@, k, k), !.rec = @ \cup {<<k, T>>},
                             !.pf = IF u.m <= 0 \/ (u.fs = 1) THEN @
                                    ELSE IF full THEN [z \in DOMAIN @ \ {u.m} |-> @[z]] ELSE (u.m :> got) @@ @,
                             !.ackP = IF u.m > 0 /\ full THEN IvAdd(@, u.m, u.m) ELSE @]
         IN  NoteAcked(f1, ks \ {k}, T)

OnAckRx(x, e) ==
    IF x.f.ar = 0 THEN x
    ELSE
    LET f   == x.f
        ks  == AckedFrames(f, e.rs)
        srtt == Samples(f, ks, e.t, f.srtt)
        f1  == NoteAcked(f, ks, e.t)
        his == {Min2(HiOf(f, e.rs[j]), f.qn - 1) : j \in 1 .. Len(e.rs)} \cup {-1}
        hi  == MaxOf(his)
        rest == DOMAIN f.un \ ks
        f2  == [f1 EXCEPT !.un = [k \in rest |->
                    LET u == f.un[k]
                    IN  IF u.q < hi /\ u.q > f.mx THEN [u EXCEPT !.nk = IF u.nk >= 0 THEN u.nk ELSE e.t, !.pm = TRUE]
                        ELSE IF u.q < hi THEN [u EXCEPT !.pm = TRUE]
                        ELSE u],
                   !.qmap = [q \in {z \in DOMAIN f.qmap : f.qmap[z] \in rest} |-> f.qmap[q]],
                   !.mx = Max2(@, hi),
                   !.srtt = srtt,
                   !.rto = IF ks = {} THEN @ ELSE RtoOf(srtt),
                   !.rtoT = IF ks # {} /\ RtoOf(srtt) # f.rto THEN e.t ELSE @]
    IN  Idle([x EXCEPT !.f = f2], e.t)

OnNackRx(x, e) ==
    IF x.f.ar = 0 THEN x
    ELSE
    LET f == x.f
        hit(q) == \E j \in 1 .. Len(e.rs) : e.rs[j][1] <= q % M24 /\ q % M24 <= e.rs[j][2]
    IN  [x EXCEPT !.f.un = [k \in DOMAIN f.un |->
            LET u == f.un[k]
            IN  IF hit(u.q) THEN [u EXCEPT !.nk = IF u.nk >= 0 THEN u.nk ELSE e.t, !.pm = TRUE]
                ELSE IF \E q \in DOMAIN f.qmap : f.qmap[q] = k /\ hit(q) THEN [u EXCEPT !.pm = TRUE]
                ELSE u]]

OnFlush(x, e) == [x EXCEPT !.f.fl = (e.id :> [n |-> Len(x.f.snd), t |-> e.t]) @@ @]

OnFlushRet(x, e) ==
    LET f == x.f
    IN  IF e.id \notin DOMAIN f.fl THEN x
        ELSE
        LET n == f.fl[e.id].n
            y == [x EXCEPT !.f.fl = [k \in DOMAIN f.fl \ {e.id} |-> f.fl[k]]]
        IN  IF e.res = "ok"
            THEN LET open == {m \in 1 .. n : f.snd[m].st = "ok" /\ ~(IF f.snd[m].kd >= 2 THEN IvIn(f.ackP, m) ELSE IvIn(f.u01, m))}
                 IN  BadIf(BadIf(y, f.micro = 0 /\ f.br = 1 /\ open # {}, "C09", "flush() returned although something is not acknowledged"),
                           f.acl >= 0 /\ e.t - f.acl > 50, "C13", "flush() returned Ok on a closed connection")
            ELSE BadIf(y, ~(e.res = "ConnectionClosed" /\ f.acl >= 0), "C09", "flush() returned " \o e.res)

(* ------------------------------------------------------------------ receiving *)
(* the messages RecvSide releases, compared with what was sent *)
Released(x, it) ==
    LET f == x.f
        m == it.m
        T == f.t
    IN
    IF m = 0 THEN x                      \* a control message: nothing for the application
    ELSE
    LET y == IF f.ar = 0 \/ m < 0 THEN x
             ELSE IF it.kd = 3
                  THEN BadIf(BadIf([x EXCEPT !.f.outO = Max2(@, m)],
                                   m <= f.outO \/ \E k \in (f.outO + 1) .. (m - 1) : f.snd[k].kd = 3 /\ f.snd[k].st \in {"ok", "call"},
                                   "C01", "ordered messages are numbered out of order"),
                             ~it.ok, "C02", "the fragments on the wire do not make up the message")
             ELSE IF it.kd = 1 \/ it.kd = 4
                  THEN BadIf([x EXCEPT !.f.outS = Max2(@, m)], m <= f.outS, "C05", "an older sequenced message counts as newer")
             ELSE IF it.kd = 2
                  THEN BadIf(BadIf([x EXCEPT !.f.outR = IvAdd(@, m, m)], IvIn(f.outR, m), "C04", "one message has two reliable indexes"),
                             FALSE, "C03", "")
             ELSE x
    IN  IF f.br = 0 THEN y
        ELSE IF it.kd = 3 THEN [y EXCEPT !.f.duO = Append(@, [m |-> m, t |-> T, fg |-> it.fg])]
        ELSE IF it.kd = 1 \/ it.kd = 4 THEN [y EXCEPT !.f.duS = Append(@, [m |-> m, t |-> T, kd |-> it.kd])]
        ELSE IF it.kd = 2 THEN [y EXCEPT !.f.duR = @ \cup {[m |-> m, t |-> T]}]
        ELSE IF it.opt THEN [y EXCEPT !.f.opU = (m :> IF m \in DOMAIN @ THEN @[m] + 1 ELSE 1) @@ @]
        ELSE [y EXCEPT !.f.duU = @ \cup {[m |-> m, t |-> T]}]

RECURSIVE ReleasedAll(_, _, _)
ReleasedAll(x, out, j) == IF j > Len(out) THEN x ELSE ReleasedAll(Released(x, out[j]), out, j + 1)

(* a sequenced message that arrives before any later one must not count as old *)
SeqArrivals(x, frs, out) ==
    LET f == x.f
        ms == {frs[j].m : j \in {k \in 1 .. Len(frs) : frs[k].r \in {1, 4}}} \ {0, -1, -2}
        rel == {out[j].m : j \in {k \in 1 .. Len(out) : out[k].kd \in {1, 4}}}
    IN  IF f.ar = 0 \/ ms = {} THEN x
        ELSE [BadIf(x, Cardinality(ms) = 1 /\ \E m \in ms : m > f.arrS /\ m \notin rel, "C05", "a newer sequenced message counts as old")
                EXCEPT !.f.arrS = Max2(@, MaxOf(ms))]

OnRx(x, e) ==
    IF ~x.f.bopen THEN x
    ELSE
    LET R2 == RArrive(x.f.R, e.q, e.fr, M24)
        x1 == [x EXCEPT !.f.R = [R2 EXCEPT !.out = << >>]]
        x2 == BadIf(x1, R2.clash /\ ~x.f.R.clash /\ x.f.ar = 1, "C02", "two messages use one compound id at the same time")
    IN  ReleasedAll(SeqArrivals(x2, e.fr, R2.out), R2.out, 1)

Pos(seq, m) == {k \in 1 .. Len(seq) : seq[k].m = m}

OnDlv(x, e) ==
    LET f == x.f
        m == e.m
        kd == IF m > 0 THEN f.snd[m].kd ELSE -1
        twice == m > 0 /\ IvIn(f.dl, m)
        x1 == BadIf(x, f.bend, "C13", "a message was received after ConnectionClosed")
        y == IF m > 0 THEN [x1 EXCEPT !.f.dl = IvAdd(@, m, m)] ELSE x1
    IN
    IF m < 0 /\ Len(f.duO) > 0 /\ f.duO[1].m = m THEN [y EXCEPT !.f.duO = Tail(@)]
    ELSE IF m < 0 /\ Len(f.duS) > 0 /\ f.duS[1].m = m THEN [y EXCEPT !.f.duS = Tail(@)]
    ELSE IF m < 0 /\ \E d \in f.duR : d.m = m THEN [y EXCEPT !.f.duR = {d \in @ : d.m # m}]
    ELSE IF m < 0 /\ \E d \in f.duU : d.m = m THEN [y EXCEPT !.f.duU = {d \in @ : d.m # m}]
    ELSE IF m = -2 THEN Bad(y, "C15", "received a message of another connection")
    ELSE IF m <= 0 THEN
        LET hd == Len(f.duO) > 0 /\ f.duO[1].m > 0 /\ f.snd[f.duO[1].m].len = e.len
        IN  BadIf(BadIf(BadIf(Bad(y, "C03", "received a message nobody sent"),
                  hd, "C01", "ordered message received with wrong bytes"),
                  hd /\ f.duO[1].fg, "C02", "fragmented message received with wrong bytes"),
                  \E d \in f.duU : d.m > 0 /\ f.snd[d.m].len = e.len, "C06", "unreliable message received with wrong bytes")
    ELSE IF kd = 3 THEN
        LET p == Pos(f.duO, m)
        IN  IF p = {} THEN
                IF twice THEN Bad(Bad(y, "C04", "ordered message received twice"), "C01", "ordered message received twice")
                ELSE Bad(y, "C01", "ordered message received before its turn")
            ELSE LET k == MinOf(p)
                 IN  [BadIf(BadIf(y, k > 1, "C01", "ordered messages received out of order"),
                            k > 1 /\ (f.duO[1].fg \/ f.duO[k].fg), "C02", "fragmented message received out of order")
                        EXCEPT !.f.duO = SubSeq(@, k + 1, Len(@))]
    ELSE IF kd = 1 \/ kd = 4 THEN
        LET p == Pos(f.duS, m)
        IN  IF p = {} THEN
                BadIf(Bad(y, "C05", IF twice THEN "sequenced message received twice" ELSE "obsolete sequenced message received"),
                      twice /\ kd = 4, "C04", "sequenced message received twice")
            ELSE LET k == MinOf(p)
                 IN  [BadIf(y, k > 1, "C05", "sequenced messages received out of order or dropped") EXCEPT !.f.duS = SubSeq(@, k + 1, Len(@))]
    ELSE IF kd = 2 THEN
        LET h == {d \in f.duR : d.m = m}
        IN  IF h = {} THEN Bad(y, IF twice THEN "C04" ELSE "C03", "reliable message received twice or without having arrived")
            ELSE [y EXCEPT !.f.duR = @ \ h]
    ELSE
        LET h == {d \in f.duU : d.m = m}
        IN  IF h # {} THEN [y EXCEPT !.f.duU = @ \ h]
            ELSE IF m \in DOMAIN f.opU /\ f.opU[m] > 0 THEN [y EXCEPT !.f.opU[m] = @ - 1]
            ELSE Bad(y, "C06", "unreliable message received that did not arrive")

(* acknowledgements and NACKs that B sends *)
RECURSIVE AckTx(_, _, _)
AckTx(x, rs, j) ==
    IF j > Len(rs) THEN x
    ELSE LET f == x.f
             a == Unwrap(rs[j][1], f.R.qnext, M24)
             b == a + (rs[j][2] - rs[j][1])
         IN  AckTx([BadIf(x, rs[j][2] < rs[j][1] \/ ~IvCovers(f.R.got, a, b), "C07", "acknowledges what has not arrived")
                      EXCEPT !.f.acked = IF rs[j][2] < rs[j][1] THEN @ ELSE IvAdd(@, a, b)], rs, j + 1)

RECURSIVE NackTx(_, _, _)
NackTx(x, rs, j) ==
    IF j > Len(rs) THEN x
    ELSE LET f == x.f
             a == Unwrap(rs[j][1], f.R.qnext, M24)
             b == a + (rs[j][2] - rs[j][1])
         IN  NackTx([BadIf(x, rs[j][2] < rs[j][1] \/ ~IvCovers(f.R.gaps, a, b), "C07", "reports as missing what was not")
                       EXCEPT !.f.nacked = IF rs[j][2] < rs[j][1] THEN @ ELSE IvAdd(@, a, b)], rs, j + 1)

UnAcked(f) == \E p \in f.R.got : ~IvCovers(f.acked, p[1], p[2])
Unreported(f) ==      \* gaps of which neither a report was sent nor the datagram has arrived since
    \E p \in f.R.gaps : \E q \in p[1] .. Min2(p[2], p[1] + 300) : ~IvIn(f.nacked, q) /\ ~IvIn(f.R.got, q)

(* ------------------------------------------------------------------ a moment of rest *)
Excused(f, T) ==
    \E k \in DOMAIN f.un :
        LET u == f.un[k]
        IN  ~u.lt /\ (T - u.t < 600 \/ T <= Deadline(f, u) + 100)

Due(f) == Len(f.duO) > 0 \/ Len(f.duS) > 0 \/ f.duR # {} \/ f.duU # {}

OnQuiet(x, e) ==
    LET f == x.f
        T == e.t
        x0 == CheckDue([x EXCEPT !.f.t = T], T + Soon + 1)
    IN
    IF f.micro = 1 /\ f.fair < 0 THEN x
    ELSE IF ~Live(f) \/ f.fair < 0 \/ T - f.fair < 2000 \/ T - f.lastS < 1500 THEN x0
    ELSE
    LET xb == BadIf(BadIf(x0, f.br = 1 /\ UnAcked(f), "C07", "datagrams that arrived were never acknowledged"),
                    f.br = 1 /\ Unreported(f), "C07", "a gap was never reported")
    IN
    IF f.ar = 0 THEN xb
    ELSE IF Excused(f, T) THEN xb
    ELSE IF f.br = 0 /\ DOMAIN f.un # {} THEN xb
    ELSE
    LET sent == {m \in 1 .. Len(f.snd) : f.snd[m].st \in {"ok", "call"}}
        R == f.R
        arrived(m) == CASE f.snd[m].kd = 3 -> m <= f.outO
                        [] f.snd[m].kd = 2 -> IvIn(f.outR, m)
                        [] OTHER -> TRUE
        lost == {m \in sent : ~arrived(m)}
        seqs == {m \in sent : f.snd[m].kd \in {1, 4}}
        pend == {m \in sent : f.snd[m].kd < 2 /\ ~IvIn(f.u01, m)}
        x1 == BadIf(xb, \E m \in lost : f.snd[m].kd = 3, "C01", "an ordered message was never received")
        x1b == BadIf(x1, \E m \in lost : f.snd[m].kd = 3 /\ f.snd[m].len >= f.mtu - Headroom, "C02", "a large message was never received")
        x2 == BadIf(x1b, \E m \in lost : f.snd[m].kd = 2, "C03", "a reliable message was never received")
        x3 == BadIf(x2, seqs # {} /\ f.snd[MaxOf(seqs)].kd = 4 /\ f.outS # MaxOf(seqs), "C05", "the last sequenced message was never received")
        x4 == BadIf(x3, pend # {}, "C06", "an unreliable message was never transmitted")
        x5 == BadIf(x4, DOMAIN f.un # {}, "C08", "data stays unacknowledged though nothing is lost any more")
        x6 == BadIf(x5, DOMAIN f.fl # {}, "C09", "flush() never returned")
        x7 == BadIf(x6, \E m \in 1 .. Len(f.snd) : f.snd[m].st = "call", "C13", "send() never returned")
    IN  x7

(* ------------------------------------------------------------------ one event *)
SetClosed(x, e, side) ==
    IF side = "a" THEN [x EXCEPT !.f.acl = IF @ < 0 THEN e.t ELSE @]
    ELSE [x EXCEPT !.f.bcl = IF @ < 0 THEN e.t ELSE @]

OnRecvErr(x, e) ==
    LET f == x.f
        y == BadIf(x, e.res # "ConnectionClosed", "C13", "recv() returned " \o e.res)
        old == f.micro = 0 /\ f.bcl >= 0 /\
               (\/ (Len(f.duO) > 0 /\ f.duO[1].t < f.bcl) \/ (Len(f.duS) > 0 /\ f.duS[1].t < f.bcl)
                \/ \E d \in f.duR \cup f.duU : d.t < f.bcl)
    IN  [BadIf(BadIf(y, f.bcl < 0, "C13", "recv() says ConnectionClosed on an open connection"),
               old, "C13", "what was received before the closing is lost") EXCEPT !.f.bend = TRUE]

Handle(x, e) ==
    CASE e.e = "tx"    -> OnTx(x, e)
      [] e.e = "rx"    -> OnRx(x, e)
      [] e.e = "dlv"   -> OnDlv(x, e)
      [] e.e = "send"  -> OnSend(x, e)
      [] e.e = "sret"  -> OnSendRet(x, e)
      [] e.e = "arx"   -> OnAckRx(x, e)
      [] e.e = "nrx"   -> OnNackRx(x, e)
      [] e.e = "atx"   -> IF x.f.br = 0 \/ ~x.f.bopen THEN x ELSE AckTx(x, e.rs, 1)
      [] e.e = "ntx"   -> IF x.f.br = 0 \/ ~x.f.bopen THEN x ELSE NackTx(x, e.rs, 1)
      [] e.e = "fl"    -> OnFlush(x, e)
      [] e.e = "flret" -> OnFlushRet(x, e)
      [] e.e = "mtu"   -> [x EXCEPT !.f.mtu = NegotiatedMtu(e.v)]
      [] e.e = "aopen" -> [x EXCEPT !.f.aopen = TRUE]
      [] e.e = "bopen" -> [x EXCEPT !.f.bopen = TRUE]
      [] e.e = "bacc"  -> [x EXCEPT !.f.bacc = TRUE, !.f.from = e.t]
      [] e.e = "acl"   -> SetClosed(x, e, "a")
      [] e.e = "bcl"   -> SetClosed(x, e, "b")
      [] e.e = "stall" -> [x EXCEPT !.f.bstall = TRUE]
      [] e.e = "unstall" -> [x EXCEPT !.f.bstall = FALSE, !.f.from = e.t]
      [] e.e = "rerr"  -> OnRecvErr(x, e)
      [] e.e = "net"   -> [x EXCEPT !.f.fair = IF e.fair THEN (IF @ < 0 THEN e.t ELSE @) ELSE -1]
      [] e.e = "quiet" -> OnQuiet(x, e)
      [] e.e = "panic" -> Bad(Bad(x, "C13", "panic"), "C17", "panic")
      [] e.e = "hang"  -> Bad(x, "C13", "the library does not come to rest")
      [] OTHER -> x

Count(c, e, x, y) ==
    CASE e.e = "tx" -> [c EXCEPT !.tx = @ + 1, !.resent = IF x.f.ar = 1 /\ y.f.rnext = x.f.rnext THEN @ + 1 ELSE @]
      [] e.e = "rx" -> [c EXCEPT !.rx = @ + 1]
      [] e.e = "dlv" -> [c EXCEPT !.dlv = @ + 1]
      [] e.e = "atx" -> [c EXCEPT !.acks = @ + 1]
      [] e.e = "ntx" -> [c EXCEPT !.nacks = @ + 1]
      [] e.e = "flret" -> [c EXCEPT !.flush = @ + 1]
      [] e.e = "send" -> [c EXCEPT !.send = @ + 1]
      [] e.e = "quiet" -> [c EXCEPT !.quiet = @ + 1,
                             !.complete = IF Live(y.f) /\ y.f.fair >= 0 /\ e.t - y.f.fair >= 2000 /\ e.t - y.f.lastS >= 1500 /\ ~Excused(y.f, e.t) THEN @ + 1 ELSE @]
      [] e.e = "reset" -> [c EXCEPT !.flows = @ + 1]
      [] OTHER -> c

RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN << >> ELSE LET a == CHOOSE z \in S : TRUE IN <<a>> \o SeqOfSet(S \ {a})

Step(st, e, k) ==
    IF e.e = "reset" THEN [st EXCEPT !.f = Init0(e.seg, e.ar, e.br, e.micro, e.t), !.c = Count(@, e, st, st)]
    ELSE LET x0 == [f |-> st.f, b |-> {}]
             y  == Handle(TimePasses(x0, e.t), e)
             w  == SeqOfSet({b \in y.b : Cardinality({j \in 1 .. Len(st.v) : st.v[j].p = b[1]}) < 12})
         IN  [f |-> y.f, c |-> Count(st.c, e, x0, y), nv |-> st.nv + Cardinality(y.b),
              v |-> IF w = << >> THEN st.v
                    ELSE st.v \o [j \in 1 .. Len(w) |-> [p |-> w[j][1], why |-> w[j][2], seg |-> st.f.seg, line |-> k, t |-> e.t]]]

Next ==
    /\ i < N
    /\ i' = i + 1
    /\ s' = Step(s, Trace[i + 1], i + 1)

Spec == Init /\ [][Next]_vars
View == i

Report ==
    i = N => PrintT("RESULT " \o ToJson([n |-> N, nv |-> s.nv, v |-> s.v, c |-> s.c]))
=============================================================================
