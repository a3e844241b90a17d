------------------------------ MODULE WireTrace ------------------------------
(* Trace specification of the bytes on the wire: every datagram the library sends ("tx") has the layout of Wire *)
(* and its fields have the values they stand for, given what came before; what it was handed ("rx") is kept.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Wire

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES i, s
vars == <<i, s>>

EmptyFn == [x \in {} |-> 0]
Put(fn, k, v) == (k :> v) @@ fn
Get(fn, k, d) == IF k \in DOMAIN fn THEN fn[k] ELSE d
Versions == {10, 11}
M24 == 16777216

(* the clock of a recording starts at 1600000000000 ms; times are bytes of it *)
TimeHigh == <<0, 0, 1, 116, 135>>
TimeLow == 7241728
TimeOf(b) == IF SubSeq(b, 1, 5) # TimeHigh THEN -1 ELSE (b[6] * 65536 + b[7] * 256 + b[8]) - TimeLow

Stream0 == [q |-> -1, ri |-> -1, oi |-> -1, si |-> -1, fi |-> -1, fs |-> EmptyFn, done |-> {}]
Init0(seg) ==
    [seg |-> seg,
     G |-> EmptyFn,        \* endpoint -> its guid
     A |-> EmptyFn,        \* <<from, to>> -> times the peer asked with (connection requests)
     P |-> EmptyFn,        \* <<from, to>> -> times of connected pings that arrived
     U |-> EmptyFn,        \* <<from, to>> -> times of unconnected pings that arrived
     R |-> EmptyFn,        \* <<from, to>> -> MTU of the requests 2 that arrived
     S |-> EmptyFn]        \* <<from, to>> -> numbering of what was sent

Kinds == {"ping", "pong", "req1", "rep1", "req2", "rep2", "already", "incompat", "disc", "ack", "nack", "frames",
          "user", "cping", "cpong", "connreq", "accepted", "newinc", "frag", "other"}
Cnt0 == [c \in Kinds |-> 0]
Init == i = 0 /\ s = [f |-> Init0(""), v |-> << >>, nv |-> 0, c |-> Cnt0]

BadIf(x, cond, p, why) == IF cond THEN [x EXCEPT !.b = @ \cup {<<p, why>>}] ELSE x

(* an endpoint has one guid *)
Guid(x, e, g, what) ==
    IF e.src \in DOMAIN x.f.G THEN BadIf(x, x.f.G[e.src] # g, "C24", what \o " carries another guid than before")
    ELSE [x EXCEPT !.f.G = Put(@, e.src, g)]

Addr(x, a, want, what) ==
    [BadIf(BadIf(x, a # want, "C24", what \o " carries another address"), a # want, "C21", what \o " carries another address") EXCEPT !.f = @]

(* the next number of a counter: one that was used, or one of the next ones (two tasks of the library send) *)
Next24(old, v) == v <= old + 64
Max(a, b) == IF a >= b THEN a ELSE b

OnBody(x, e, fr) ==
    LET b == Body(fr.d)
        pr == <<e.dst, e.src>>
        now == e.t
        T(y, bytes, what) == BadIf(y, TimeOf(bytes) < 0 \/ TimeOf(bytes) > now + 1, "C24", what \o " carries a time that is not the sender's")
    IN  CASE b.k = "user" -> x
          [] b.k = "disc" -> x
          [] b.k = "cping" -> T(x, b.time, "a connected ping")
          [] b.k = "cpong" ->
                T(BadIf(x, b.ping \notin Get(x.f.P, pr, {}), "C24", "a connected pong does not carry the time of a ping"), b.pong, "a connected pong")
          [] b.k = "connreq" ->
                T(Guid(BadIf(x, b.sec # 0, "C24", "a connection request asks for security"), e, b.guid, "a connection request"), b.time, "a connection request")
          [] b.k = "accepted" ->
                LET x1 == Addr(x, b.addr, e.da, "a connection request accepted")
                    x2 == BadIf(x1, b.ix # 0, "C24", "a connection request accepted carries another index")
                    x3 == BadIf(x2, b.req \notin Get(x.f.A, pr, {}), "C24", "a connection request accepted does not carry the time of the request")
                IN  T(x3, b.acc, "a connection request accepted")
          [] b.k = "newinc" -> Addr(x, b.addr, e.da, "a new incoming connection")
          [] OTHER -> BadIf(x, TRUE, "C24", "a frame carries no message of the protocol")

OnFrame(x, e, fr) ==
    LET k == <<e.src, e.dst>>
        st == Get(x.f.S, k, Stream0)
        x1 == BadIf(x, fr.bits % 8 # 0 \/ fr.d = << >>, "C24", "the length of a frame is not that of its bytes")
        x2 == BadIf(x1, fr.low # 0 \/ fr.ch # 0, "C24", "a frame carries flags or a channel that it does not use")
        x3 == BadIf(x2, IsReliable(fr.rel) /\ ~Next24(st.ri, fr.ri), "C24", "reliable frames are not numbered one by one")
        x4 == BadIf(x3, fr.rel = 3 /\ ~Next24(st.oi, fr.oi), "C24", "ordered frames are not numbered one by one")
        x5 == BadIf(x4, IsSequenced(fr.rel) /\ ~Next24(st.si, fr.si), "C24", "sequenced frames are not numbered one by one")
        x6 == BadIf(x5, fr.frag /\ (fr.fs < 1 \/ fr.fx < 0 \/ fr.fx >= fr.fs \/ Get(st.fs, fr.fi, fr.fs) # fr.fs), "C24",
                    "a fragment header does not fit the other fragments")
        x7 == BadIf(x6, fr.frag /\ fr.fi > st.fi + 64, "C24", "fragmented messages are not numbered one by one")
        st1 == [st EXCEPT !.ri = Max(@, fr.ri), !.si = Max(@, fr.si), !.oi = IF fr.rel = 3 THEN Max(@, fr.oi) ELSE @,
                          !.fi = IF fr.frag THEN Max(@, fr.fi) ELSE @, !.fs = IF fr.frag THEN Put(@, fr.fi, fr.fs) ELSE @]
        x8 == [x7 EXCEPT !.f.S = Put(@, k, st1)]
    IN  IF fr.frag THEN x8 ELSE OnBody(x8, e, fr)

RECURSIVE EachFrame(_, _, _)
EachFrame(x, e, fr) == IF fr = << >> THEN x ELSE EachFrame(OnFrame(x, e, Head(fr)), e, Tail(fr))

OnTx(x, e) ==
    LET d == Decode(e.b)
        pr == <<e.dst, e.src>>
        key == <<e.src, e.dst>>
    IN  CASE d.k = "bad" -> BadIf(x, TRUE, "C24", "a datagram does not have the layout of the protocol")
          [] d.k = "ping" -> BadIf(x, TimeOf(d.time) < 0 \/ TimeOf(d.time) > e.t + 1, "C24", "a ping carries a time that is not the sender's")
          [] d.k = "pong" ->
                Guid(BadIf(x, TimeOf(d.time) # e.t /\ d.time \notin Get(x.f.U, pr, {}), "C24", "a pong carries neither the time of the ping nor its own"),
                     e, d.guid, "a pong")
          [] d.k = "req1" ->
                LET x1 == BadIf(x, d.size + 28 # 1400, "C23", "request 1 is not as large as the MTU it asks for")
                IN  BadIf(x1, ~d.zero, "C24", "request 1 is not padded with zeros")
          [] d.k = "rep1" ->
                LET x1 == BadIf(x, d.mtu # 1400, "C23", "reply 1 does not offer an MTU of 1400")
                IN  Guid(BadIf(x1, d.enc # 0, "C24", "reply 1 asks for security"), e, d.guid, "reply 1")
          [] d.k = "req2" ->
                LET x1 == Addr(x, d.addr, e.da, "request 2")
                    x2 == [x1 EXCEPT !.f.S = Put(@, key, [Get(@, key, Stream0) EXCEPT !.fs = EmptyFn])]
                IN  Guid(BadIf(x2, d.mtu > 1400 \/ d.mtu < 400, "C23", "request 2 states an MTU out of bounds"), e, d.guid, "request 2")
          [] d.k = "rep2" ->
                LET x1 == Addr(x, d.addr, e.da, "reply 2")
                    x2 == BadIf(x1, \A m \in Get(x.f.R, pr, {}) : d.mtu # IF m < 1400 THEN m ELSE 1400, "C23", "reply 2 states another MTU than was agreed")
                    x3 == [x2 EXCEPT !.f.S = Put(@, key, [Get(@, key, Stream0) EXCEPT !.fs = EmptyFn])]
                IN  Guid(BadIf(x3, d.enc # 0, "C24", "reply 2 asks for encryption"), e, d.guid, "reply 2")
          [] d.k = "already" -> Guid(x, e, d.guid, "already connected")
          [] d.k = "incompat" -> Guid(BadIf(x, d.ver \notin Versions, "C24", "incompatible protocol carries another version"), e, d.guid, "incompatible protocol")
          [] d.k = "disc" -> x
          [] d.k \in {"ack", "nack"} ->
                BadIf(x, d.r = << >> \/ \E j \in 1 .. Len(d.r) : d.r[j][1] > d.r[j][2], "C24", "an acknowledgement without ranges, or with an empty one")
          [] d.k = "frames" ->
                LET st == Get(x.f.S, key, Stream0)
                    x1 == BadIf(x, ~Next24(st.q, d.q), "C24", "datagrams are not numbered one by one")
                IN  EachFrame([x1 EXCEPT !.f.S = Put(@, key, [st EXCEPT !.q = Max(@, d.q)])], e, d.fr)

Note(fn, k, v) == Put(fn, k, Get(fn, k, {}) \cup {v})

RECURSIVE NoteFrames(_, _, _)
NoteFrames(x, e, fr) ==
    IF fr = << >> THEN x
    ELSE LET h == Head(fr)
             b == IF h.frag THEN [k |-> "frag"] ELSE Body(h.d)
             x1 == CASE b.k = "connreq" -> [x EXCEPT !.f.A = Note(@, <<e.src, e.dst>>, b.time)]
                     [] b.k = "cping" -> [x EXCEPT !.f.P = Note(@, <<e.src, e.dst>>, b.time)]
                     [] OTHER -> x
         IN  NoteFrames(x1, e, Tail(fr))

OnRx(x, e) ==
    LET d == Decode(e.b) IN
    CASE d.k = "frames" -> NoteFrames(x, e, d.fr)
      [] d.k = "ping" -> [x EXCEPT !.f.U = Note(@, <<e.src, e.dst>>, d.time)]
      [] d.k = "req2" -> [x EXCEPT !.f.R = Note(@, <<e.src, e.dst>>, d.mtu)]
      [] OTHER -> x

Handle(x, e) == IF e.e = "tx" THEN OnTx(x, e) ELSE IF e.e = "rx" THEN OnRx(x, e) ELSE x

Bump(c, k) == [c EXCEPT ![IF k \in Kinds THEN k ELSE "other"] = @ + 1]
RECURSIVE CountFrames(_, _)
CountFrames(c, fr) ==
    IF fr = << >> THEN c ELSE CountFrames(Bump(c, IF Head(fr).frag THEN "frag" ELSE Body(Head(fr).d).k), Tail(fr))
Count(c, e) ==
    IF e.e # "tx" THEN c
    ELSE LET d == Decode(e.b) IN IF d.k = "frames" THEN CountFrames(Bump(c, "frames"), d.fr) ELSE Bump(c, d.k)

RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN << >> ELSE LET a == CHOOSE z \in S : TRUE IN <<a>> \o SeqOfSet(S \ {a})

Step(st, e, k) ==
    IF e.e = "reset" THEN [st EXCEPT !.f = Init0(e.seg)]
    ELSE LET y  == Handle([f |-> st.f, b |-> {}], e)
             w  == SeqOfSet({b \in y.b : Cardinality({j \in 1 .. Len(st.v) : st.v[j].p = b[1]}) < 12})
         IN  [f |-> y.f, c |-> Count(st.c, e), nv |-> st.nv + Cardinality(y.b),
              v |-> IF w = << >> THEN st.v
                    ELSE st.v \o [j \in 1 .. Len(w) |-> [p |-> w[j][1], why |-> w[j][2], seg |-> st.f.seg, line |-> k, t |-> e.t]]]

Next ==
    /\ i < N
    /\ i' = i + 1
    /\ s' = Step(s, Trace[i + 1], i + 1)

Spec == Init /\ [][Next]_vars
View == i

Report ==
    i = N => PrintT("RESULT " \o ToJson([n |-> N, nv |-> s.nv, v |-> s.v, c |-> s.c]))
=============================================================================
