------------------------------ MODULE RecvSide ------------------------------
(* The receiving half of a RakNet connection, as a function of what arrives.                  *)
(*                                                                                            *)
(* A datagram is a sequence number q and a sequence of frames                                 *)
(*   [r |-> reliability 0..4, ri, si, oi |-> indexes, fg |-> 0/1 fragment,                    *)
(*    fs |-> number of fragments, fi |-> compound id, fx |-> fragment index,                  *)
(*    m |-> message it belongs to, off, n |-> which bytes of it, tot |-> its length]          *)
(* q, ri, si, oi are counters modulo M on the wire; the state keeps them unbounded.           *)
(* RArrive(R, q, frames, M) is the state after the arrival; its field `out` lists, in order,  *)
(* what the arrival releases to the application:                                              *)
(*   [kd |-> kind, m |-> message, opt |-> TRUE when the release may also be withheld (the     *)
(*    repetition of an unreliable datagram), ok |-> the fragments made up the whole message,  *)
(*    fg |-> it was fragmented]                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Ivl

EmptyFn == [x \in {} |-> 0]

RInit == [got   |-> {},          \* sequence numbers that arrived
          qnext |-> 0,           \* one more than the highest of them
          gaps  |-> {},          \* sequence numbers that were missing when a later one arrived
          oexp  |-> 0,           \* next ordered index to be released
          obuf  |-> EmptyFn,     \* complete ordered messages waiting for their turn
          frag  |-> EmptyFn,     \* compound id -> what arrived of it
          sexp  |-> 0,           \* sequenced indexes below are obsolete
          rlow  |-> 0,           \* all reliable indexes below have arrived
          rset  |-> {},          \* reliable indexes above that have arrived
          clash |-> FALSE,       \* two messages used the same compound id at the same time
          out   |-> << >>]

(* first arrival of a reliable index? *)
RFresh(R, ri) == ri >= R.rlow /\ ~IvIn(R.rset, ri)
RNote(R, ri) ==
    IF ~RFresh(R, ri) THEN R
    ELSE LET s == IvAdd(R.rset, ri, ri)
             head == {p \in s : p[1] = R.rlow}
         IN  IF head = {} THEN [R EXCEPT !.rset = s]
             ELSE LET h == CHOOSE p \in head : TRUE
                  IN  [R EXCEPT !.rset = s \ head, !.rlow = h[2] + 1]

RelItem(kd, m, opt, ok, fg) == [kd |-> kd, m |-> m, opt |-> opt, ok |-> ok, fg |-> fg]
ROut(R, item) == [R EXCEPT !.out = Append(@, item)]

RECURSIVE RDrain(_)
RDrain(R) ==
    IF R.oexp \notin DOMAIN R.obuf THEN R
    ELSE LET it == R.obuf[R.oexp]
         IN  RDrain([R EXCEPT !.out = Append(@, it),
                              !.obuf = [x \in DOMAIN R.obuf \ {R.oexp} |-> R.obuf[x]],
                              !.oexp = @ + 1])

(* the pieces of a compound, put together: one message, every byte of it, in order *)
RECURSIVE Contig(_, _, _)
Contig(parts, k, off) ==
    IF k \notin DOMAIN parts THEN off
    ELSE IF parts[k].off # off THEN -1
    ELSE Contig(parts, k + 1, off + parts[k].n)

Whole(c) ==
    /\ DOMAIN c.parts = 0 .. (c.fs - 1)
    /\ \A k \in DOMAIN c.parts : c.parts[k].m = c.parts[0].m
    /\ c.parts[0].m >= 0
    /\ Contig(c.parts, 0, 0) = c.parts[0].tot

RFragment(R, f, o) ==
    IF f.fs = 0 THEN R
    ELSE
    LET old == IF f.fi \in DOMAIN R.frag THEN R.frag[f.fi]
               ELSE [oi |-> o, fs |-> f.fs, parts |-> EmptyFn]
        R1  == IF old.oi # o THEN [R EXCEPT !.clash = TRUE] ELSE R
        c   == IF f.fx \in DOMAIN old.parts THEN old
               ELSE [old EXCEPT !.parts = (f.fx :> [m |-> f.m, off |-> f.off, n |-> f.n, tot |-> f.tot]) @@ @]
    IN  IF Cardinality(DOMAIN c.parts) # c.fs
        THEN [R1 EXCEPT !.frag = (f.fi :> c) @@ @]
        ELSE LET k0 == MinOf(DOMAIN c.parts)
             IN [R1 EXCEPT !.frag = [x \in DOMAIN R1.frag \ {f.fi} |-> R1.frag[x]],
                        !.obuf = IF c.oi \in DOMAIN R1.obuf THEN R1.obuf
                                 ELSE (c.oi :> RelItem(3, c.parts[k0].m, FALSE, Whole(c), TRUE)) @@ R1.obuf]

RFrame(R, f, repeated, M) ==
    IF f.r = 0 THEN ROut(R, RelItem(0, f.m, repeated, TRUE, FALSE))
    ELSE IF f.r = 1 \/ f.r = 4 THEN
        LET s == Unwrap(f.si, R.sexp, M)
            R1 == IF f.r = 4 THEN RNote(R, Unwrap(f.ri, R.rlow, M)) ELSE R
        IN  IF s >= R1.sexp THEN ROut([R1 EXCEPT !.sexp = s + 1], RelItem(f.r, f.m, FALSE, TRUE, FALSE))
            ELSE R1
    ELSE IF f.r = 2 THEN
        LET ri == Unwrap(f.ri, R.rlow, M)
        IN  IF RFresh(R, ri) THEN ROut(RNote(R, ri), RelItem(2, f.m, FALSE, TRUE, FALSE)) ELSE R
    ELSE
        LET R1 == RNote(R, Unwrap(f.ri, R.rlow, M))
            o  == Unwrap(f.oi, R1.oexp, M)
        IN  IF o < R1.oexp \/ o \in DOMAIN R1.obuf THEN R1
            ELSE IF f.fg = 1 THEN RDrain(RFragment(R1, f, o))
            ELSE RDrain([R1 EXCEPT !.obuf = (o :> RelItem(3, f.m, FALSE, TRUE, FALSE)) @@ @])

RECURSIVE RFrames(_, _, _, _, _)
RFrames(R, frames, i, repeated, M) ==
    IF i > Len(frames) THEN R
    ELSE RFrames(RFrame(R, frames[i], repeated, M), frames, i + 1, repeated, M)

RArrive(R0, q0, frames, M) ==
    LET R   == [R0 EXCEPT !.out = << >>]
        q   == Unwrap(q0, R.qnext, M)
        rep == IvIn(R.got, q)
        R1  == [R EXCEPT !.got = IvAdd(@, q, q),
                         !.gaps = IF q > R.qnext THEN IvAdd(@, R.qnext, q - 1) ELSE @,
                         !.qnext = IF q >= @ THEN q + 1 ELSE @]
    IN  RFrames(R1, frames, 1, rep, M)
=============================================================================
