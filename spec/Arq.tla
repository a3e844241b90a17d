-------------------------------- MODULE Arq --------------------------------
(* One direction of a RakNet connection as a closed system: an application sends messages, A puts them into      *)
(* frames, transmits and repeats them; a network loses, repeats and reorders datagrams; B is RecvSide, acknowledges *)
(* every datagram and hands messages to its application. The guarantees of C01-C07 and C09 are invariants of it.  *)
(*                                                                                                                *)
(* Spec leaves the moment of every transmission and repetition open: what holds, holds for all timing. ArqLib is    *)
(* the library's own timing, a refinement of it.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Ivl, RecvSide

CONSTANTS
    KindSet,     \* kinds of messages the application may send
    Parts,       \* into how many frames an ordered message may be cut
    MaxSend,     \* messages
    MaxQ,        \* transmissions
    MaxDup,      \* datagrams the network repeats
    MaxFlush,    \* calls of flush()
    MaxLoss,     \* datagrams the network loses (NextLive, NextT)
    M,           \* the counters are modulo M
    F            \* compound ids are modulo F

VARIABLES
    msgs,        \* what was sent: [kd, parts]
    pend,        \* frames not transmitted yet
    un,          \* reliable index -> frame that is not acknowledged
    dg,          \* sequence number -> frame
    net,         \* sequence numbers in flight
    back,        \* sequence numbers whose acknowledgement is in flight
    R,           \* B
    dlv,         \* what B's application received: [kd, m]
    opt,         \* how many of dlv were repetitions of an unreliable datagram
    ri, oi, si, fi,   \* A's counters
    dups, losses,
    flush        \* calls of flush(): [n |-> messages sent before, done]

vars == <<msgs, pend, un, dg, net, back, R, dlv, opt, ri, oi, si, fi, dups, losses, flush>>

Init ==
    /\ msgs = << >> /\ pend = << >> /\ un = EmptyFn /\ dg = << >> /\ net = {} /\ back = {}
    /\ R = RInit /\ dlv = << >> /\ opt = 0 /\ ri = 0 /\ oi = 0 /\ si = 0 /\ fi = 0
    /\ dups = 0 /\ losses = 0 /\ flush = << >>

Frame(kd, m, x, n) ==
    [r |-> kd, ri |-> IF kd >= 2 THEN (ri + x) % M ELSE 0, si |-> IF kd \in {1, 4} THEN si % M ELSE 0, oi |-> oi % M,
     fg |-> IF n > 1 THEN 1 ELSE 0, fs |-> n, fi |-> fi % F, fx |-> x,
     m |-> m, off |-> x, n |-> 1, tot |-> n, key |-> ri + x]

(* the application sends *)
Send(kd, n) ==
    /\ Len(msgs) < MaxSend
    /\ n > 1 => kd = 3
    /\ msgs' = Append(msgs, [kd |-> kd, parts |-> n])
    /\ pend' = pend \o [x \in 1 .. n |-> Frame(kd, Len(msgs) + 1, x - 1, n)]
    /\ ri' = IF kd >= 2 THEN ri + n ELSE ri
    /\ oi' = IF kd = 3 THEN oi + 1 ELSE oi
    /\ si' = IF kd \in {1, 4} THEN si + 1 ELSE si
    /\ fi' = IF n > 1 THEN fi + 1 ELSE fi
    /\ UNCHANGED <<un, dg, net, back, R, dlv, opt, dups, losses, flush>>

(* a transmission: a fresh sequence number *)
Transmit ==
    /\ pend # << >> /\ Len(dg) < MaxQ
    /\ LET f == Head(pend)
       IN  /\ dg' = Append(dg, f)
           /\ net' = net \cup {Len(dg)}
           /\ un' = IF f.r >= 2 THEN (f.key :> f) @@ un ELSE un
    /\ pend' = Tail(pend)
    /\ UNCHANGED <<msgs, back, R, dlv, opt, ri, oi, si, fi, dups, losses, flush>>

Repeat(k) ==
    /\ k \in DOMAIN un /\ Len(dg) < MaxQ
    /\ dg' = Append(dg, un[k])
    /\ net' = net \cup {Len(dg)}
    /\ UNCHANGED <<msgs, pend, un, back, R, dlv, opt, ri, oi, si, fi, dups, losses, flush>>

Plain(out) == [j \in 1 .. Len(out) |-> [kd |-> out[j].kd, m |-> out[j].m, ok |-> out[j].ok]]

(* a datagram reaches B, perhaps to come again; B acknowledges it *)
Arrive(q, again) ==
    /\ q \in net
    /\ again => dups < MaxDup
    /\ LET R2 == RArrive(R, q % M, <<dg[q + 1]>>, M)
       IN  /\ R' = [R2 EXCEPT !.out = << >>]
           /\ \/ dlv' = dlv \o Plain(R2.out) /\ opt' = opt + Cardinality({j \in 1 .. Len(R2.out) : R2.out[j].opt})
              \/ \E j \in 1 .. Len(R2.out) : R2.out[j].opt /\ dlv' = dlv /\ opt' = opt
    /\ net' = IF again THEN net ELSE net \ {q}
    /\ dups' = IF again THEN dups + 1 ELSE dups
    /\ back' = back \cup {q}
    /\ UNCHANGED <<msgs, pend, un, dg, ri, oi, si, fi, losses, flush>>

(* an acknowledgement reaches A *)
Acked(q) ==
    /\ q \in back
    /\ back' = back \ {q}
    /\ un' = [k \in {z \in DOMAIN un : un[z] # dg[q + 1]} |-> un[k]]
    /\ UNCHANGED <<msgs, pend, dg, net, R, dlv, opt, ri, oi, si, fi, dups, losses, flush>>

Lose ==
    /\ losses < MaxLoss
    /\ losses' = losses + 1
    /\ \/ \E q \in net : net' = net \ {q} /\ back' = back
       \/ \E q \in back : back' = back \ {q} /\ net' = net
    /\ UNCHANGED <<msgs, pend, un, dg, R, dlv, opt, ri, oi, si, fi, dups, flush>>

CallFlush ==
    /\ Len(flush) < MaxFlush /\ msgs # << >>
    /\ flush' = Append(flush, [n |-> Len(msgs), done |-> FALSE])
    /\ UNCHANGED <<msgs, pend, un, dg, net, back, R, dlv, opt, ri, oi, si, fi, dups, losses>>

(* nothing is waiting: the library's flush() waits for that *)
FlushReturns ==
    /\ \E j \in 1 .. Len(flush) : ~flush[j].done
    /\ pend = << >> /\ DOMAIN un = {}
    /\ flush' = [j \in 1 .. Len(flush) |-> [flush[j] EXCEPT !.done = TRUE]]
    /\ UNCHANGED <<msgs, pend, un, dg, net, back, R, dlv, opt, ri, oi, si, fi, dups, losses>>

(* a sequence number that is never used: the library gave it to a repetition that an acknowledgement forestalled *)
Skip ==
    /\ Len(dg) < MaxQ
    /\ dg' = Append(dg, Frame(-1, 0, 0, 1))
    /\ UNCHANGED <<msgs, pend, un, net, back, R, dlv, opt, ri, oi, si, fi, dups, losses, flush>>

(* a datagram that stays in net for ever is lost; a repetition needs no reason *)
Next ==
    \/ \E kd \in KindSet, n \in Parts : Send(kd, n)
    \/ Transmit
    \/ \E k \in DOMAIN un : Repeat(k)
    \/ \E q \in net, again \in BOOLEAN : Arrive(q, again)
    \/ \E q \in back : Acked(q)
    \/ CallFlush \/ FlushReturns
Spec == Init /\ [][Next]_vars

(* ---- the same with a limit on losses, and repetitions only of what was lost: everything arrives in the end ---- *)
Missing(k) == ~\E q \in net \cup back : dg[q + 1] = un[k]
NextLive ==
    \/ \E kd \in KindSet, n \in Parts : Send(kd, n)
    \/ Transmit
    \/ \E k \in DOMAIN un : Missing(k) /\ Repeat(k)
    \/ \E q \in net, again \in BOOLEAN : Arrive(q, again)
    \/ \E q \in back : Acked(q)
    \/ Lose \/ CallFlush \/ FlushReturns
SpecLive ==
    /\ Init /\ [][NextLive]_vars
    /\ WF_vars(Transmit)
    /\ WF_vars(\E k \in DOMAIN un : Missing(k) /\ Repeat(k))
    /\ WF_vars(\E q \in net : Arrive(q, FALSE))
    /\ WF_vars(\E q \in back : Acked(q))
    /\ WF_vars(FlushReturns)

(* ---------------------------------------------------------------- what is to hold *)
Of(s, K) == SelectSeq(s, LAMBDA x : x.kd \in K)
SentOf(K) == SelectSeq([j \in 1 .. Len(msgs) |-> j], LAMBDA j : msgs[j].kd \in K)

Ordered ==           \* C01: a prefix of what was sent, in order, without gap or repetition
    LET d == Of(dlv, {3})  w == SentOf({3})
    IN  Len(d) <= Len(w) /\ \A j \in 1 .. Len(d) : d[j].m = w[j]
Whole1 == \A j \in 1 .. Len(dlv) : dlv[j].ok                               \* C02
Once(K) == LET d == Of(dlv, K) IN \A a, b \in 1 .. Len(d) : d[a].m = d[b].m => a = b
ReliableOnce == Once({2, 3, 4}) /\ Once({1})                               \* C04 (and C05)
Sequenced == LET d == Of(dlv, {1, 4}) IN \A a, b \in 1 .. Len(d) : a < b => d[a].m < d[b].m      \* C05
Unreliable ==        \* C06: transmitted once; what is received is a message that was sent, extra only if the network repeats
    /\ \A a, b \in 1 .. Len(dg) : dg[a].r \in {0, 1} /\ dg[a].m = dg[b].m => a = b
    /\ LET d == Of(dlv, {0}) IN Len(d) - opt <= Cardinality({d[j].m : j \in 1 .. Len(d)})
Genuine == \A j \in 1 .. Len(dlv) : dlv[j].m \in 1 .. Len(msgs) /\ msgs[dlv[j].m].kd = dlv[j].kd
AckTrue == \A q \in back : IvIn(R.got, q)                        \* C07
GapTrue == \A p \in R.gaps : \A q \in p[1] .. p[2] : q < Len(dg)           \* C07
FlushTrue ==         \* C09: what was sent before a flush() that returned has arrived, the reliable part of it is handed out
    \A j \in 1 .. Len(flush) : flush[j].done =>
        \A m \in 1 .. flush[j].n :
            CASE msgs[m].kd \in {2, 3} -> \E k \in 1 .. Len(dlv) : dlv[k].m = m
              [] msgs[m].kd = 4 -> \E k \in 1 .. Len(dlv) : dlv[k].kd \in {1, 4} /\ dlv[k].m >= m
              [] OTHER -> \E q \in 1 .. Len(dg) : dg[q].m = m
NoClash == ~R.clash
Safe == Ordered /\ Whole1 /\ ReliableOnce /\ Sequenced /\ Unreliable /\ Genuine /\ AckTrue /\ GapTrue /\ FlushTrue /\ NoClash

Arrives ==           \* C01, C03, C09: everything reliable arrives, flush() returns
    <>[](\A m \in 1 .. Len(msgs) : msgs[m].kd \in {2, 3} => \E k \in 1 .. Len(dlv) : dlv[k].m = m)
FlushEnds == <>[](\A j \in 1 .. Len(flush) : flush[j].done)
LastArrives == <>[](LET w == SentOf({1, 4}) IN w # << >> /\ msgs[w[Len(w)]].kd = 4 => \E k \in 1 .. Len(dlv) : dlv[k].m = w[Len(w)])
=============================================================================
