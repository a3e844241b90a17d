-------------------------------- MODULE MCWire --------------------------------
(* Wire is checked against itself: every packet of a set with small and extreme values in each field is a state. *)
EXTENDS Wire, FiniteSets, TLC

CONSTANT Deep
VARIABLE x

G8 == {<<0, 0, 0, 0, 0, 0, 0, 0>>, <<255, 254, 0, 253, 18, 1, 127, 128>>}
N16 == IF Deep THEN {0, 1, 127, 128, 255, 256, 1400, 32767, 32768, 65280, 65535} ELSE {0, 1, 255, 256, 65535}
N24 == IF Deep THEN {0, 1, 255, 256, 65535, 65536, 8388607, 8388608, 16776960, 16777215} ELSE {0, 1, 256, 65536, 16777215}
N32 == {0, 1, 256, 65536, 16777216, 2147483647}
Addrs == {[f |-> 4, ip |-> i, p |-> p] : i \in {<<127, 0, 0, 1>>, <<0, 255, 6, 4>>, <<255, 255, 255, 255>>}, p \in N16}
         \cup {[f |-> 6, ip |-> i, p |-> p] : i \in {[j \in 1 .. 16 |-> 0], [j \in 1 .. 16 |-> 17 * (j - 1)]}, p \in N16}
Motds == {<< >>, <<0>>, <<77, 67, 80, 69, 59>>, [j \in 1 .. 300 |-> j % 256]}
Ranges == UNION {[1 .. n -> {<<a, b>> \in N24 \X N24 : a <= b}] : n \in 0 .. IF Deep THEN 2 ELSE 1}
          \cup {[j \in 1 .. 300 |-> <<3 * j, 3 * j + (j % 2)>>]}
Payloads == {<<254>>, <<254, 0, 255>>, [j \in 1 .. 40 |-> 128 + j]}
FrameOf(r, fg, a, b, d) ==
    [rel |-> r, frag |-> fg, bits |-> 8 * Len(d), ri |-> IF IsReliable(r) THEN a ELSE -1, si |-> IF IsSequenced(r) THEN b ELSE -1,
     oi |-> IF IsOrdered(r) THEN a ELSE -1, ch |-> 0, d |-> d, fs |-> IF fg THEN 17 ELSE 0, fi |-> IF fg THEN 65281 ELSE 0, fx |-> IF fg THEN 16 ELSE 0]
Some == {FrameOf(r, fg, a, b, d) : r \in 0 .. 4, fg \in BOOLEAN, a \in N24, b \in N24, d \in Payloads}
Frags == {[FrameOf(3, TRUE, 5, 0, <<1, 2>>) EXCEPT !.fs = s, !.fi = i, !.fx = y] : s \in N32, i \in N16, y \in N32}
Few == {FrameOf(r, fg, 258, 65536, d) : r \in 0 .. 4, fg \in BOOLEAN, d \in {<<254>>, <<3, 132, 5>>}}
Dgs(fs, qs) == {[k |-> "frames", id |-> i, q |-> q, fr |-> f] : i \in IF Deep THEN {128, 132, 140, 141} ELSE {132}, q \in qs, f \in fs}

Packets ==
    [k : {"ping"}, id : {1, 2}, time : G8, guid : G8]
    \cup [k : {"pong"}, time : G8, guid : G8, motd : Motds]
    \cup [k : {"req1"}, ver : 0 .. 255, size : {46}, zero : {TRUE}] \cup [k : {"req1"}, ver : {10, 11}, size : {18, 19, 400, 1372, 1464}, zero : {TRUE}]
    \cup [k : {"rep1"}, guid : G8, enc : {0, 1}, mtu : N16]
    \cup [k : {"req2"}, addr : Addrs, mtu : N16, guid : G8]
    \cup [k : {"rep2"}, guid : G8, addr : Addrs, mtu : N16, enc : {0, 1}]
    \cup [k : {"already"}, guid : G8]
    \cup [k : {"incompat"}, ver : 0 .. 255, guid : G8]
    \cup [k : {"disc"}]
    \cup [k : {"ack", "nack"}, r : Ranges]
    \cup Dgs({<<f>> : f \in Some}, {0, 66051})
    \cup Dgs({<<f>> : f \in Frags}, {1})
    \cup Dgs({<<f>> : f \in Few}, N24)
    \cup Dgs({<<f, g>> : f \in Few, g \in Few}, {7})

Init == x \in Packets
Next == UNCHANGED x
Spec == Init /\ [][Next]_x

Same(f) == [rel |-> f.rel, frag |-> f.frag, bits |-> f.bits, ri |-> f.ri, si |-> f.si, oi |-> f.oi, ch |-> f.ch, d |-> f.d,
            fs |-> f.fs, fi |-> f.fi, fx |-> f.fx]
Bytes == \A j \in 1 .. Len(Encode(x)) : Encode(x)[j] \in 0 .. 255
RoundTrip ==
    LET y == Decode(Encode(x))
    IN  IF x.k = "frames" THEN /\ y.k = "frames" /\ y.id = x.id /\ y.q = x.q /\ Len(y.fr) = Len(x.fr)
                               /\ \A j \in 1 .. Len(x.fr) : Same(y.fr[j]) = x.fr[j]
        ELSE y = x
(* nothing shorter means the same, and what is cut off is noticed (the padding of request 1 is its length) *)
Cut ==
    LET b == Encode(x)
    IN  \A n \in 0 .. (IF Len(b) > 60 THEN 60 ELSE Len(b)) - 1 :
            LET y == Decode(SubSeq(b, 1, n))
            IN  \/ y.k = "bad"
                \/ x.k = "req1" /\ n >= 18 /\ y.size = n
                \/ x.k = "frames" /\ Len(y.fr) < Len(x.fr)
(* a byte too many is noticed as well *)
Long ==
    LET y == Decode(Encode(x) \o <<0>>)
    IN  y.k = "bad" \/ (x.k = "req1" /\ y.size = x.size + 1)
===============================================================================
