--------------------------------- MODULE Wire ---------------------------------
(* The RakNet wire format, protocol 10 and 11: what the bytes of a datagram stand for. Bytes are integers 0..255, *)
(* a datagram is a sequence of them. Numbers of 8 bytes do not fit TLC's integers and stay sequences of bytes.    *)
(* Decode and Encode are each other's inverse on well-formed datagrams (checked by MCWire).                       *)
EXTENDS Integers, Sequences

Magic == <<0, 255, 255, 0, 254, 254, 254, 254, 253, 253, 253, 253, 18, 52, 86, 120>>

U16(b, p) == b[p] * 256 + b[p + 1]
U24(b, p) == b[p] + b[p + 1] * 256 + b[p + 2] * 65536                                 \* little-endian
U32(b, p) == IF b[p] > 127 THEN -1 ELSE b[p] * 16777216 + b[p + 1] * 65536 + b[p + 2] * 256 + b[p + 3]
Has(b, p, n) == p + n - 1 <= Len(b)
Take(b, p, n) == SubSeq(b, p, p + n - 1)
IsMagic(b, p) == Has(b, p, 16) /\ Take(b, p, 16) = Magic

E16(v) == <<v \div 256, v % 256>>
E24(v) == <<v % 256, (v \div 256) % 256, v \div 65536>>
E32(v) == <<v \div 16777216, (v \div 65536) % 256, (v \div 256) % 256, v % 256>>

(* ---- addresses: [f |-> 4 or 6, ip |-> bytes, p |-> port] ---- *)
NoAddr == [ok |-> FALSE, n |-> 0, a |-> [f |-> 0, ip |-> << >>, p |-> 0]]
AddrAt(b, p) ==
    IF ~Has(b, p, 1) THEN NoAddr
    ELSE IF b[p] = 4 THEN
        IF ~Has(b, p, 7) THEN NoAddr
        ELSE [ok |-> TRUE, n |-> 7, a |-> [f |-> 4, ip |-> [j \in 1 .. 4 |-> 255 - b[p + j]], p |-> U16(b, p + 5)]]
    ELSE IF b[p] = 6 THEN
        IF ~Has(b, p, 29) THEN NoAddr
        ELSE [ok |-> TRUE, n |-> 29, a |-> [f |-> 6, ip |-> Take(b, p + 9, 16), p |-> U16(b, p + 3)]]
    ELSE NoAddr
EncAddr(a) ==
    IF a.f = 4 THEN <<4>> \o [j \in 1 .. 4 |-> 255 - a.ip[j]] \o E16(a.p)
    ELSE <<6, 23, 0>> \o E16(a.p) \o <<0, 0, 0, 0>> \o a.ip \o <<0, 0, 0, 0>>

RECURSIVE AddrsAt(_, _, _)
AddrsAt(b, p, n) ==      \* n addresses in a row: where they end, 0 if they do not
    IF n = 0 THEN p ELSE LET x == AddrAt(b, p) IN IF x.ok THEN AddrsAt(b, p + x.n, n - 1) ELSE 0

(* ---- acknowledgements: a list of ranges ---- *)
RECURSIVE RangesAt(_, _, _, _)
RangesAt(b, p, n, acc) ==
    IF n = 0 THEN [ok |-> p = Len(b) + 1, r |-> acc]
    ELSE IF ~Has(b, p, 4) \/ b[p] \notin {0, 1} THEN [ok |-> FALSE, r |-> acc]
    ELSE IF b[p] = 1 THEN RangesAt(b, p + 4, n - 1, Append(acc, <<U24(b, p + 1), U24(b, p + 1)>>))
    ELSE IF ~Has(b, p, 7) THEN [ok |-> FALSE, r |-> acc]
    ELSE RangesAt(b, p + 7, n - 1, Append(acc, <<U24(b, p + 1), U24(b, p + 4)>>))

RECURSIVE EncRanges(_)
EncRanges(r) ==
    IF r = << >> THEN << >>
    ELSE (IF Head(r)[1] = Head(r)[2] THEN <<1>> \o E24(Head(r)[1]) ELSE <<0>> \o E24(Head(r)[1]) \o E24(Head(r)[2]))
         \o EncRanges(Tail(r))

(* ---- frames ---- *)
IsReliable(r) == r \in {2, 3, 4}
IsSequenced(r) == r \in {1, 4}
IsOrdered(r) == r \in {1, 3, 4}
HeaderLen(r, frag) == 3 + (IF IsReliable(r) THEN 3 ELSE 0) + (IF IsSequenced(r) THEN 3 ELSE 0)
                        + (IF IsOrdered(r) THEN 4 ELSE 0) + (IF frag THEN 10 ELSE 0)
NoFrame == [ok |-> FALSE, n |-> 0]
FrameAt(b, p) ==
    IF ~Has(b, p, 3) THEN NoFrame
    ELSE LET r == b[p] \div 32
             frag == (b[p] \div 16) % 2 = 1
             bits == U16(b, p + 1)
             h == HeaderLen(r, frag)
             len == (bits + 7) \div 8
             ps == p + 3 + (IF IsReliable(r) THEN 3 ELSE 0)
             po == ps + (IF IsSequenced(r) THEN 3 ELSE 0)
             pf == po + (IF IsOrdered(r) THEN 4 ELSE 0)
         IN  IF r > 4 \/ ~Has(b, p, h + len) THEN NoFrame
             ELSE [ok |-> TRUE, n |-> h + len, rel |-> r, low |-> b[p] % 16, bits |-> bits,
                   ri |-> IF IsReliable(r) THEN U24(b, p + 3) ELSE -1,
                   si |-> IF IsSequenced(r) THEN U24(b, ps) ELSE -1,
                   oi |-> IF IsOrdered(r) THEN U24(b, po) ELSE -1,
                   ch |-> IF IsOrdered(r) THEN b[po + 3] ELSE 0,
                   frag |-> frag,
                   fs |-> IF frag THEN U32(b, pf) ELSE 0,
                   fi |-> IF frag THEN U16(b, pf + 4) ELSE 0,
                   fx |-> IF frag THEN U32(b, pf + 6) ELSE 0,
                   d |-> Take(b, p + h, len)]
EncFrame(f) ==
    <<f.rel * 32 + (IF f.frag THEN 16 ELSE 0)>> \o E16(f.bits)
    \o (IF IsReliable(f.rel) THEN E24(f.ri) ELSE << >>) \o (IF IsSequenced(f.rel) THEN E24(f.si) ELSE << >>)
    \o (IF IsOrdered(f.rel) THEN E24(f.oi) \o <<f.ch>> ELSE << >>)
    \o (IF f.frag THEN E32(f.fs) \o E16(f.fi) \o E32(f.fx) ELSE << >>) \o f.d

RECURSIVE FramesAt(_, _, _)
FramesAt(b, p, acc) ==
    IF p = Len(b) + 1 THEN [ok |-> acc # << >>, fr |-> acc]
    ELSE LET f == FrameAt(b, p) IN IF f.ok THEN FramesAt(b, p + f.n, Append(acc, f)) ELSE [ok |-> FALSE, fr |-> acc]
RECURSIVE EncFrames(_)
EncFrames(fr) == IF fr = << >> THEN << >> ELSE EncFrame(Head(fr)) \o EncFrames(Tail(fr))

(* ---- datagrams ---- *)
BadD(b) == [k |-> "bad"]
Decode(b) ==
    IF b = << >> THEN BadD(b)
    ELSE LET id == b[1]  n == Len(b) IN
    CASE id \in {1, 2} -> IF n = 33 /\ IsMagic(b, 10) THEN [k |-> "ping", id |-> id, time |-> Take(b, 2, 8), guid |-> Take(b, 26, 8)] ELSE BadD(b)
      [] id = 28 -> IF n >= 35 /\ IsMagic(b, 18) /\ U16(b, 34) = n - 35
                    THEN [k |-> "pong", time |-> Take(b, 2, 8), guid |-> Take(b, 10, 8), motd |-> Take(b, 36, n - 35)] ELSE BadD(b)
      [] id = 5 -> IF n >= 18 /\ IsMagic(b, 2) THEN [k |-> "req1", ver |-> b[18], size |-> n, zero |-> \A j \in 19 .. n : b[j] = 0] ELSE BadD(b)
      [] id = 6 -> IF n = 28 /\ IsMagic(b, 2) THEN [k |-> "rep1", guid |-> Take(b, 18, 8), enc |-> b[26], mtu |-> U16(b, 27)] ELSE BadD(b)
      [] id = 7 -> LET a == AddrAt(b, 18)
                   IN  IF IsMagic(b, 2) /\ a.ok /\ n = 27 + a.n
                       THEN [k |-> "req2", addr |-> a.a, mtu |-> U16(b, 18 + a.n), guid |-> Take(b, 20 + a.n, 8)] ELSE BadD(b)
      [] id = 8 -> LET a == AddrAt(b, 26)
                   IN  IF IsMagic(b, 2) /\ a.ok /\ n = 28 + a.n
                       THEN [k |-> "rep2", guid |-> Take(b, 18, 8), addr |-> a.a, mtu |-> U16(b, 26 + a.n), enc |-> b[28 + a.n]] ELSE BadD(b)
      [] id = 18 -> IF n = 25 /\ IsMagic(b, 2) THEN [k |-> "already", guid |-> Take(b, 18, 8)] ELSE BadD(b)
      [] id = 25 -> IF n = 26 /\ IsMagic(b, 3) THEN [k |-> "incompat", ver |-> b[2], guid |-> Take(b, 19, 8)] ELSE BadD(b)
      [] id = 21 -> IF n = 1 THEN [k |-> "disc"] ELSE BadD(b)
      [] id \in {192, 160} ->
            IF n < 3 THEN BadD(b)
            ELSE LET r == RangesAt(b, 4, U16(b, 2), << >>)
                 IN  IF r.ok THEN [k |-> IF id = 192 THEN "ack" ELSE "nack", r |-> r.r] ELSE BadD(b)
      [] id \in 128 .. 141 ->
            IF n < 4 THEN BadD(b)
            ELSE LET f == FramesAt(b, 5, << >>)
                 IN  IF f.ok THEN [k |-> "frames", id |-> id, q |-> U24(b, 2), fr |-> f.fr] ELSE BadD(b)
      [] OTHER -> BadD(b)

Encode(x) ==
    CASE x.k = "ping" -> <<x.id>> \o x.time \o Magic \o x.guid
      [] x.k = "pong" -> <<28>> \o x.time \o x.guid \o Magic \o E16(Len(x.motd)) \o x.motd
      [] x.k = "req1" -> <<5>> \o Magic \o <<x.ver>> \o [j \in 1 .. x.size - 18 |-> 0]
      [] x.k = "rep1" -> <<6>> \o Magic \o x.guid \o <<x.enc>> \o E16(x.mtu)
      [] x.k = "req2" -> <<7>> \o Magic \o EncAddr(x.addr) \o E16(x.mtu) \o x.guid
      [] x.k = "rep2" -> <<8>> \o Magic \o x.guid \o EncAddr(x.addr) \o E16(x.mtu) \o <<x.enc>>
      [] x.k = "already" -> <<18>> \o Magic \o x.guid
      [] x.k = "incompat" -> <<25, x.ver>> \o Magic \o x.guid
      [] x.k = "disc" -> <<21>>
      [] x.k = "ack" -> <<192>> \o E16(Len(x.r)) \o EncRanges(x.r)
      [] x.k = "nack" -> <<160>> \o E16(Len(x.r)) \o EncRanges(x.r)
      [] x.k = "frames" -> <<x.id>> \o E24(x.q) \o EncFrames(x.fr)

(* ---- messages of the library inside frames ---- *)
Body(d) ==
    IF d = << >> THEN BadD(d)
    ELSE LET id == d[1]  n == Len(d) IN
    CASE id = 254 -> [k |-> "user"]
      [] id = 0 -> IF n = 9 THEN [k |-> "cping", time |-> Take(d, 2, 8)] ELSE BadD(d)
      [] id = 3 -> IF n = 17 THEN [k |-> "cpong", ping |-> Take(d, 2, 8), pong |-> Take(d, 10, 8)] ELSE BadD(d)
      [] id = 9 -> IF n = 18 THEN [k |-> "connreq", guid |-> Take(d, 2, 8), time |-> Take(d, 10, 8), sec |-> d[18]] ELSE BadD(d)
      [] id = 16 -> LET a == AddrAt(d, 2)                     \* address, index, ten addresses, two times
                        e == IF a.ok /\ Has(d, 2 + a.n, 2) THEN AddrsAt(d, 4 + a.n, 10) ELSE 0
                    IN  IF e > 0 /\ n = e + 15
                        THEN [k |-> "accepted", addr |-> a.a, ix |-> U16(d, 2 + a.n), req |-> Take(d, e, 8), acc |-> Take(d, e + 8, 8)]
                        ELSE BadD(d)
      [] id = 19 -> LET a == AddrAt(d, 2)                     \* address, ten addresses, two times
                        e == IF a.ok THEN AddrsAt(d, 2 + a.n, 10) ELSE 0
                    IN  IF e > 0 /\ n = e + 15 THEN [k |-> "newinc", addr |-> a.a, req |-> Take(d, e, 8), acc |-> Take(d, e + 8, 8)] ELSE BadD(d)
      [] id = 21 -> IF n = 1 THEN [k |-> "disc"] ELSE BadD(d)
      [] OTHER -> BadD(d)
===============================================================================
