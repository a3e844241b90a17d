------------------------------- MODULE ApiTrace -------------------------------
(* Trace specification of histories of calls: real threads, the real clock, the real loopback.           *)
(* An event is the invocation of a call ("inv") or what it returned ("ret"); their order in the file is   *)
(* the order in which they happened. The specification is the service the library provides, without the  *)
(* protocol: two ends with a queue of messages each way, and what closing does. A call takes effect at    *)
(* some moment between its invocation and its return.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES i, s
vars == <<i, s>>

EmptyFn == [x \in {} |-> 0]
Put(fn, k, v) == (k :> v) @@ fn
Reliable == {2, 3, 4}
Sequenced == {1, 4}

Init0(seg) ==
    [seg |-> seg,
     P |-> EmptyFn,       \* pending call -> its invocation
     E |-> EmptyFn,       \* end -> what was sent, what was received, how it ended
     lclosing |-> -1, lclosed |-> -1,      \* when close() of the listener was called, when it returned
     conn |-> {}, acc |-> {}]              \* connections: made by connect(), handed out by accept()

CNames == {"scen", "calls", "msgs", "got", "flushes", "closes", "refused"}
Cnt0 == [c \in CNames |-> 0]
Init == i = 0 /\ s = [f |-> Init0(""), v |-> << >>, nv |-> 0, c |-> Cnt0]

Bad(x, p, why) == [x EXCEPT !.b = @ \cup {<<p, why>>}]
BadIf(x, cond, ps, why) == IF cond THEN [x EXCEPT !.b = @ \cup {<<p, why>> : p \in ps}] ELSE x

End0 == [sent |-> EmptyFn, got |-> {}, must |-> {}, closing |-> -1, closed |-> -1, err |-> FALSE, gone |-> FALSE]
Key(v) == <<v.c, v.side>>
Other(k) == <<k[1], 1 - k[2]>>
EndAt(f, k) == IF k \in DOMAIN f.E THEN f.E[k] ELSE End0
SetEnd(x, k, e) == [x EXCEPT !.f.E = Put(@, k, e)]

(* something has begun that may end this connection *)
MayEnd(f, k) == EndAt(f, k).closing >= 0 \/ EndAt(f, Other(k)).closing >= 0 \/ f.lclosing >= 0

OnInv(x, e, n) ==
    LET x1 == [x EXCEPT !.f.P = Put(@, e.k, [e EXCEPT !.n = n])] IN
    CASE e.op = "send" ->
            LET k == Key(e)  o == EndAt(x.f, k)
            IN  SetEnd(x1, k, [o EXCEPT !.sent = Put(@, e.m, [rel |-> e.rel, inv |-> n, ret |-> -1])])
      [] e.op \in {"close", "drop"} ->
            LET k == Key(e)  o == EndAt(x.f, k)
            IN  SetEnd(x1, k, [o EXCEPT !.closing = IF @ < 0 THEN n ELSE @, !.gone = @ \/ e.op = "drop"])
      [] e.op \in {"lclose", "ldrop"} /\ e.l = 1 -> [x1 EXCEPT !.f.lclosing = IF @ < 0 THEN n ELSE @]
      [] OTHER -> x1

Owner(op) ==
    CASE op \in {"bind", "listen"} -> {"C13", "C16"}
      [] op \in {"lclose"} -> {"C13", "C16"}
      [] op = "connect" -> {"C11", "C13"}
      [] op = "accept" -> {"C11", "C13", "C19"}
      [] op = "flush" -> {"C09", "C13"}
      [] op = "ping" -> {"C20"}
      [] op = "send" -> {"C01", "C13"}
      [] OTHER -> {"C13"}

(* a message was received *)
OnGot(x, v, e) ==
    LET k == Key(v)
        me == EndAt(x.f, k)
        o == EndAt(x.f, Other(k))
        known == e.m \in DOMAIN o.sent
        r == o.sent[e.m]
        x1 == BadIf(x, ~known, {"C03", "C15"}, "recv() returned a message that was not sent on this connection")
        x2 == BadIf(x1, known /\ ~e.good, {IF r.rel = 3 THEN "C01" ELSE IF r.rel \in Sequenced THEN "C05" ELSE IF r.rel = 2 THEN "C03" ELSE "C06"},
                    "recv() returned a message with other bytes than were sent")
        x3 == BadIf(x2, known /\ e.m \in me.got, {IF r.rel \in Reliable THEN "C04" ELSE IF r.rel = 1 THEN "C05" ELSE "C06"},
                    "a message was received twice")
        x4 == BadIf(x3, known /\ r.rel = 3 /\ \E m \in DOMAIN o.sent : m \notin me.got /\ o.sent[m].rel = 3 /\ o.sent[m].ret >= 0 /\ o.sent[m].ret < r.inv,
                    {"C01"}, "a ReliableOrdered message was received before one that was sent earlier")
        x5 == BadIf(x4, known /\ r.rel \in Sequenced /\ r.ret >= 0 /\ \E m \in me.got : o.sent[m].rel \in Sequenced /\ o.sent[m].inv > r.ret,
                    {"C05"}, "a sequenced message was received after one that was sent later")
        x6 == BadIf(x5, me.err, {"C13"}, "recv() returned a message after it had reported the end")
    IN  SetEnd(x6, k, [me EXCEPT !.got = IF known THEN @ \cup {e.m} ELSE @])

(* a call on an end failed or succeeded, and whether it may *)
OnEndCall(x, v, e, n) ==
    LET k == Key(v)
        me == EndAt(x.f, k)
        ok == e.res = "ok"
        x1 == BadIf(x, ~ok /\ e.res # "ConnectionClosed", {"C13"}, v.op \o "() failed with " \o e.res)
        x2 == BadIf(x1, ~ok /\ ~MayEnd(x.f, k), {"C13", "C14"}, v.op \o "() failed on a connection that nobody closed")
        x3 == BadIf(x2, ok /\ v.op \in {"send", "flush"} /\ me.closed >= 0 /\ me.closed < v.n, {"C13"},
                    v.op \o "() succeeded on a connection that was closed")
    IN  CASE v.op = "send" /\ ok -> SetEnd(x3, k, [me EXCEPT !.sent[v.m].ret = n])
          [] v.op = "flush" /\ ok ->
                SetEnd(x3, k, [me EXCEPT !.must = @ \cup {m \in DOMAIN me.sent : me.sent[m].rel \in {2, 3} /\ me.sent[m].ret >= 0 /\ me.sent[m].ret < v.n}])
          [] v.op = "recv" /\ ~ok -> SetEnd(x3, k, [me EXCEPT !.err = TRUE])
          [] OTHER -> x3

OnRet(x0, e, n) ==
    LET v == x0.f.P[e.k]
        x == [x0 EXCEPT !.f.P = [p \in DOMAIN @ \ {e.k} |-> @[p]]]
        ok == e.res = "ok"
        lmay == x.f.lclosing >= 0
    IN  IF e.res = "hang" THEN BadIf(x, TRUE, Owner(v.op), v.op \o "() does not return")
        ELSE IF e.res = "gone" THEN x
        ELSE CASE v.op = "connect" ->
                    LET x1 == BadIf(x, ~ok /\ ~lmay, {"C11"}, "connect() failed: " \o e.res)
                        x2 == BadIf(x1, ok /\ x.f.lclosed >= 0 /\ x.f.lclosed < v.n, {"C16"}, "connect() succeeded on a closed listener")
                    IN  IF ok THEN [x2 EXCEPT !.f.conn = @ \cup {e.c}] ELSE x2
               [] v.op = "accept" ->
                    LET x1 == BadIf(x, ~ok /\ ~lmay, {"C19"}, "accept() failed: " \o e.res)
                        x2 == BadIf(x1, ok /\ x.f.lclosed >= 0 /\ x.f.lclosed < v.n, {"C16"}, "accept() succeeded on a closed listener")
                        x3 == BadIf(x2, ok /\ e.c \in x.f.acc, {"C11", "C19"}, "a connection was handed out twice")
                    IN  IF ok THEN [x3 EXCEPT !.f.acc = @ \cup {e.c}] ELSE x3
               [] v.op = "recv" /\ ok -> OnGot(x, v, e)
               [] v.op \in {"send", "flush", "recv"} -> OnEndCall(x, v, e, n)
               [] v.op \in {"close", "drop"} ->
                    LET k == Key(v) IN
                    SetEnd(BadIf(x, ~ok, {"C13"}, "close() failed: " \o e.res), k, [EndAt(x.f, k) EXCEPT !.closed = IF @ < 0 THEN n ELSE @])
               [] v.op = "lclose" ->
                    LET x1 == BadIf(x, ~ok, {"C16"}, "close() of a listener failed: " \o e.res)
                    IN  IF v.l = 1 THEN [x1 EXCEPT !.f.lclosed = IF @ < 0 THEN n ELSE @] ELSE x1
               [] v.op = "bind" -> BadIf(x, ~ok, {"C16"}, "bind() failed: " \o e.res)
               [] v.op = "rebind" -> BadIf(x, ~ok /\ x.f.lclosed >= 0 /\ x.f.lclosed < v.n, {"C16"},
                                          "the address of a closed listener cannot be bound again: " \o e.res)
               [] v.op = "ping" -> BadIf(x, ~ok /\ ~lmay, {"C20"}, "ping() failed: " \o e.res)
               [] OTHER -> x

(* the program has ended: every call has returned *)
OnDone(x) ==
    LET f == x.f
        ks == DOMAIN f.E
        lost == {k \in ks : EndAt(f, Other(k)).err /\ ~EndAt(f, Other(k)).gone
                            /\ \E m \in f.E[k].must : m \notin EndAt(f, Other(k)).got}
        x1 == BadIf(x, lost # {}, {"C09", "C13"}, "flush() returned, but the peer did not receive what was sent before it")
        x2 == BadIf(x1, \E k \in lost : \E m \in f.E[k].must : f.E[k].sent[m].rel = 3 /\ m \notin EndAt(f, Other(k)).got,
                    {"C01"}, "an acknowledged ReliableOrdered message was not received")
        x3 == BadIf(x2, \E k \in lost : \E m \in f.E[k].must : f.E[k].sent[m].rel = 2 /\ m \notin EndAt(f, Other(k)).got,
                    {"C03"}, "an acknowledged Reliable message was not received")
        x4 == BadIf(x3, f.lclosing < 0 /\ f.acc \ f.conn # {}, {"C11"}, "accept() returned a connection that no client has")
        x5 == BadIf(x4, \E k \in DOMAIN f.P : TRUE, {"C13"}, "a call did not return")
    IN  x5

Handle(x, e, n) ==
    CASE e.e = "inv" -> OnInv(x, e, n)
      [] e.e = "ret" -> OnRet(x, e, n)
      [] e.e = "done" -> OnDone(x)
      [] OTHER -> x

Count(c, e, x) ==
    CASE e.e = "inv" -> [c EXCEPT !.calls = @ + 1, !.msgs = IF e.op = "send" THEN @ + 1 ELSE @,
                                  !.closes = IF e.op \in {"close", "drop", "lclose", "ldrop"} THEN @ + 1 ELSE @]
      [] e.e = "ret" ->
            [c EXCEPT !.got = IF x.f.P[e.k].op = "recv" /\ e.res = "ok" THEN @ + 1 ELSE @,
                      !.flushes = IF x.f.P[e.k].op = "flush" /\ e.res = "ok" THEN @ + 1 ELSE @,
                      !.refused = IF e.res # "ok" THEN @ + 1 ELSE @]
      [] OTHER -> c

RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN << >> ELSE LET a == CHOOSE z \in S : TRUE IN <<a>> \o SeqOfSet(S \ {a})

Step(st, e, k) ==
    IF e.e = "reset" THEN [st EXCEPT !.f = Init0(e.seg), !.c.scen = @ + 1]
    ELSE LET x0 == [f |-> st.f, b |-> {}]
             y  == Handle(x0, e, k)
             w  == SeqOfSet({b \in y.b : Cardinality({j \in 1 .. Len(st.v) : st.v[j].p = b[1]}) < 12})
         IN  [f |-> y.f, c |-> Count(st.c, e, x0), nv |-> st.nv + Cardinality(y.b),
              v |-> IF w = << >> THEN st.v
                    ELSE st.v \o [j \in 1 .. Len(w) |-> [p |-> w[j][1], why |-> w[j][2], seg |-> st.f.seg, line |-> k, t |-> e.t]]]

Next ==
    /\ i < N
    /\ i' = i + 1
    /\ s' = Step(s, Trace[i + 1], i + 1)

Spec == Init /\ [][Next]_vars
View == i

Report ==
    i = N => PrintT("RESULT " \o ToJson([n |-> N, nv |-> s.nv, v |-> s.v, c |-> s.c]))
=============================================================================
