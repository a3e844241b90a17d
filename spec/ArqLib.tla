------------------------------- MODULE ArqLib -------------------------------
(* One direction of a connection with the timing of the library: a timer of 50 ms at both ends, a flush of the send    *)
(* queue at each tick and each send(), a retransmission timeout from measured round trips that grows by half with each *)
(* repetition, repetition of what a NACK reports or what an acknowledgement of later data skips, and new data only when *)
(* nothing is unacknowledged. Every step is one of Arq (or none): TLC checks that refinement. Its behaviours (hist) are *)
(* schedules of a network; they are replayed into the library, whose recordings FlowTrace then judges, and its          *)
(* predictions of what is delivered are compared with what was.                                                         *)
EXTENDS Arq, SendSide, Json

CONSTANTS
    Period,      \* ms between two ticks
    Srtt0,       \* smoothed round trip in the beginning
    AgeMax,      \* ages are not counted beyond (and no timeout is longer)
    Depth        \* length of the behaviours

VARIABLES
    srtt, rto,
    nexta,       \* one more than the number acknowledged last
    seqn,        \* next sequence number
    meta,        \* reliable index -> [q, age, n, due, qs]: number and age of the last transmission, repetitions, whether
                 \* it is to be repeated at the next flush (then q is the number it will have), all its numbers
    ph,          \* "idle", or a flush in progress: "rep" repeats, "new" transmits
    gapnew,      \* numbers B will report as missing at its next tick
    nb,          \* reports in flight, in order
    hist
libvars == <<vars, srtt, rto, nexta, seqn, meta, ph, gapnew, nb, hist>>
state == <<vars, srtt, rto, nexta, seqn, meta, ph, gapnew, nb>>

LInit ==
    /\ Init
    /\ srtt = Srtt0 /\ rto = RtoOf(Srtt0) /\ nexta = 0 /\ seqn = 0 /\ meta = EmptyFn /\ ph = "idle"
    /\ gapnew = {} /\ nb = << >> /\ hist = << >>

Log(a) == hist' = IF Depth > 0 THEN Append(hist, a) ELSE hist      \* Depth 0: no history, for exhaustive checks
Quiet == UNCHANGED hist

(* mark k for repetition: it gets its number now *)
Marked(mt, k, q) == [mt EXCEPT ![k].due = TRUE, ![k].q = q, ![k].qs = @ \cup {q}]
Timeout(n) == Min2(AgeMax, Backoff(rto, n))
LateSet(mt) == {k \in DOMAIN mt : ~mt[k].due /\ mt[k].age >= Timeout(mt[k].n)}
RECURSIVE MarkAll(_, _, _)
MarkAll(mt, S, q) ==             \* in the order of their numbers; <<metadata, next number>>
    IF S = {} THEN <<mt, q>>
    ELSE LET k == CHOOSE x \in S : \A y \in S : mt[x].q <= mt[y].q
         IN  MarkAll(Marked(mt, k, q), S \ {k}, q + 1)

StartFlush(mt) ==
    LET r == MarkAll(mt, LateSet(mt), seqn)
    IN  /\ meta' = r[1] /\ seqn' = r[2]
        /\ ph' = IF DOMAIN un = {} THEN "new" ELSE "rep"

LSend(kd, n) ==
    /\ ph = "idle"
    /\ Send(kd, n)
    /\ StartFlush(meta)
    /\ UNCHANGED <<srtt, rto, nexta, gapnew, nb>> /\ Log(<<"send", kd, n>>)

Older(mt) == [k \in DOMAIN mt |-> [mt[k] EXCEPT !.age = Min2(AgeMax, @ + Period)]]
LTick ==
    /\ ph = "idle"
    /\ StartFlush(Older(meta))
    /\ nb' = IF gapnew = {} THEN nb ELSE Append(nb, gapnew)
    /\ gapnew' = {}
    /\ UNCHANGED <<vars, srtt, rto, nexta>> /\ Log(<<"tick">>)

Due == {k \in DOMAIN un : meta[k].due}
LFlush ==
    /\ ph # "idle"
    /\ \/ /\ ph = "rep" /\ Due # {}
          /\ LET k == CHOOSE x \in Due : \A y \in Due : meta[x].q <= meta[y].q
             IN  IF Len(dg) < meta[k].q THEN Skip /\ UNCHANGED meta
                 ELSE /\ Repeat(k)
                      /\ meta' = [meta EXCEPT ![k].due = FALSE, ![k].age = 0, ![k].n = @ + 1]
          /\ UNCHANGED <<seqn, ph>>
       \/ /\ ph = "new" /\ pend # << >>
          /\ IF Len(dg) < seqn THEN Skip /\ UNCHANGED <<seqn, meta>>
             ELSE /\ Transmit
                  /\ seqn' = seqn + 1
                  /\ meta' = IF Head(pend).r < 2 THEN meta
                             ELSE (Head(pend).key :> [q |-> seqn, age |-> 0, n |-> 0, due |-> FALSE, qs |-> {seqn}]) @@ meta
          /\ UNCHANGED ph
       \/ /\ (ph = "rep" /\ Due = {}) \/ (ph = "new" /\ pend = << >>)
          /\ ph' = "idle"
          /\ UNCHANGED <<vars, seqn, meta>>
    /\ UNCHANGED <<srtt, rto, nexta, gapnew, nb>> /\ Quiet

LArrive(q, again) ==
    /\ ph = "idle"
    /\ Arrive(q, again)
    /\ gapnew' = IF q > R.qnext THEN gapnew \cup (R.qnext .. (q - 1)) ELSE gapnew
    /\ UNCHANGED <<srtt, rto, nexta, seqn, meta, ph, nb>> /\ Log(<<IF again THEN "dup" ELSE "dl", q>>)

(* those whose last transmission has one of the numbers *)
At(mt, S) == {k \in DOMAIN mt : ~mt[k].due /\ mt[k].q \in S}

LAcked(q) ==
    /\ ph = "idle"
    /\ Acked(q)
    /\ LET r == MarkAll(meta, At(meta, nexta .. (q - 1)), seqn)
           hit == {k \in DOMAIN r[1] : q \in r[1][k].qs}
           s2 == IF hit = {} THEN srtt ELSE Smooth(srtt, r[1][CHOOSE k \in hit : TRUE].age)
       IN  /\ meta' = [k \in DOMAIN r[1] \ hit |-> r[1][k]]
           /\ seqn' = r[2]
           /\ srtt' = s2 /\ rto' = IF hit = {} THEN rto ELSE RtoOf(s2)
    /\ nexta' = q + 1
    /\ UNCHANGED <<ph, gapnew, nb>> /\ Log(<<"ack", q>>)

LNacked ==
    /\ ph = "idle" /\ nb # << >>
    /\ LET r == MarkAll(meta, At(meta, Head(nb)), seqn) IN meta' = r[1] /\ seqn' = r[2]
    /\ nb' = Tail(nb)
    /\ UNCHANGED <<vars, srtt, rto, nexta, ph, gapnew>> /\ Log(<<"nack", MinOf(Head(nb))>>)

LLose ==
    /\ ph = "idle" /\ losses < MaxLoss
    /\ losses' = losses + 1
    /\ \/ \E q \in net : net' = net \ {q} /\ UNCHANGED <<back, nb>> /\ Log(<<"lose", q>>)
       \/ \E q \in back : back' = back \ {q} /\ UNCHANGED <<net, nb>> /\ Log(<<"loseack", q>>)
       \/ nb # << >> /\ nb' = Tail(nb) /\ UNCHANGED <<net, back>> /\ Log(<<"losenack", MinOf(Head(nb))>>)
    /\ UNCHANGED <<msgs, pend, un, dg, R, dlv, opt, ri, oi, si, fi, dups, flush>>
    /\ UNCHANGED <<srtt, rto, nexta, seqn, meta, ph, gapnew>>

LCallFlush == ph = "idle" /\ CallFlush /\ UNCHANGED <<srtt, rto, nexta, seqn, meta, ph, gapnew, nb>> /\ Log(<<"flush">>)
LFlushReturns == ph = "idle" /\ FlushReturns /\ UNCHANGED <<srtt, rto, nexta, seqn, meta, ph, gapnew, nb>> /\ Quiet

LNext ==
    \/ \E kd \in KindSet, n \in Parts : LSend(kd, n)
    \/ LTick \/ LFlush
    \/ \E q \in net, again \in BOOLEAN : LArrive(q, again)
    \/ \E q \in back : LAcked(q)
    \/ LNacked \/ LLose \/ LCallFlush \/ LFlushReturns
LSpec == LInit /\ [][LNext /\ (ph # "idle" \/ Len(hist) < Depth)]_libvars

(* for exhaustive checks *)
LFree == LInit /\ [][LNext]_libvars

(* a network faster than the timer: then finitely many losses cause finitely many repetitions, and everything arrives *)
Calm == net = {} /\ back = {} /\ nb = << >>
Tick2 == LTick /\ Calm
LUrgent ==
    \/ \E kd \in KindSet, n \in Parts : LSend(kd, n)
    \/ Tick2 \/ LFlush
    \/ \E q \in net, again \in BOOLEAN : LArrive(q, again)
    \/ \E q \in back : LAcked(q)
    \/ LNacked \/ LLose \/ LCallFlush \/ LFlushReturns
LLive == LInit /\ [][LUrgent]_libvars /\ WF_libvars(LFlush) /\ WF_libvars(Tick2) /\ SF_libvars(LFlushReturns)
         /\ WF_libvars(\E q \in net : LArrive(q, FALSE)) /\ WF_libvars(\E q \in back : LAcked(q)) /\ WF_libvars(LNacked)

(* every step is one of Arq: what Arq guarantees, the library's timing guarantees *)
ArqStep == [][Next \/ Skip \/ (\E q \in net : losses' = losses + 1 /\ net' = net \ {q} /\ back' = back)
              \/ (losses' = losses + 1 /\ net' = net /\ back' \subseteq back)]_vars

(* C08 *)
Meta ==
    /\ DOMAIN meta = DOMAIN un
    /\ seqn >= Len(dg)
    /\ \A k \in DOMAIN meta : ~meta[k].due => meta[k].q < Len(dg) /\ dg[meta[k].q + 1] = un[k]
    /\ \A k \in DOMAIN meta : meta[k].due => meta[k].q >= Len(dg)
Resend == [][\A k \in DOMAIN un : Len(dg') > Len(dg) /\ dg'[Len(dg')] = un[k] => meta[k].due]_libvars
NewOnlyAlone == [][pend # << >> /\ Len(pend') < Len(pend) => ph = "new"]_libvars

Dump == ph = "idle" /\ Len(hist) = Depth =>
          PrintT("HIST " \o ToJson([h |-> hist, d |-> [j \in 1 .. Len(dlv) |-> dlv[j].m], o |-> opt, t |-> Len(dg)]))
=============================================================================
