------------------------------ MODULE SendSide ------------------------------
(* What the sending half of a RakNet connection owes: what it may accept, how it numbers, when  *)
(* it may and must repeat. Shared by the model (Arq) and by the trace specification (FlowTrace). *)
EXTENDS Integers, Sequences, Ivl

RtoMin == 50
RtoMax == 12000
AskedMtu == 1400      \* what the library asks for and offers
LeastMtu == 400       \* a peer that states less gets no connection
IpUdp == 28
Headroom == 60        \* the longest frame header, UDP/IP and a reserve

(* the two ends agree on the smaller of what they state *)
NegotiatedMtu(stated) == Min2(stated, AskedMtu)

(* the answer to send() of a message of `len` bytes of which the first is b0 (-1: none) *)
SendVerdict(len, b0, kd, mtu, closed) ==
    IF len = 0 \/ b0 # 254 THEN "PacketHeaderError"
    ELSE IF closed THEN "ConnectionClosed"
    ELSE IF kd # 3 /\ len > mtu - Headroom THEN "PacketSizeExceedMTU"
    ELSE "ok"

(* smoothed round trip and retransmission timeout, in ms, as whole numbers *)
Smooth(srtt, rtt) == (srtt * 8 + rtt * 2) \div 10
RtoOf(srtt) == Min2(RtoMax, Max2(RtoMin, (srtt * 3) \div 2))

RECURSIVE Backoff(_, _)
Backoff(rto, k) == IF k = 0 \/ rto > 4000000 THEN rto ELSE Backoff((rto * 3) \div 2, k - 1)
=============================================================================
