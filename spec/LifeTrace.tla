------------------------------ MODULE LifeTrace ------------------------------
(* Trace specification of whole scenarios: listeners, handshakes, sessions, accept(), pings, closing.   *)
(* The file named by TRACE holds recordings, one event per line; a "reset" line begins a recording.     *)
(* The state follows the recording; what the recording shows that is not allowed is noted in s.v with   *)
(* the property it breaks. An "end" is one side of one connection: a client or a session of a listener. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Ivl, SendSide

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES i, s
vars == <<i, s>>

EmptyFn == [x \in {} |-> 0]
ToSet(q) == {q[j] : j \in 1 .. Len(q)}
Silence == 60000
Now == 60            \* ms: what has to happen at once
Soon == 300          \* ms: what has to happen within a few ticks
Tell == 3            \* the end is announced so often at least: the last datagrams may be lost
ClientEnd == 11000   \* ms: recv() of a client that closed itself may take as long
Backlog == 10        \* so many connections wait for accept(), further clients wait
Versions == {10, 11}

Init0(seg, micro) ==
    [seg |-> seg, micro |-> micro, t |-> 0, chk |-> 0, fair |-> -1,
     L |-> EmptyFn,        \* listener -> [st, motd, mk, ct, was]
     C |-> EmptyFn,        \* client -> [to, ver, t, st, stage, remote, mtu, acc, exp, expT, badrx]
     S |-> << >>,          \* sessions in the order they were established: [l, a, guid, ver, maybe]
     cur |-> EmptyFn,      \* <<listener, address>> -> newest session
     Q |-> EmptyFn,        \* listener -> sessions not handed out yet
     V |-> EmptyFn, LV |-> EmptyFn, G |-> EmptyFn,   \* <<listener, address>> -> version, last version asked for, last request 2
     E |-> EmptyFn,        \* ends
     A |-> EmptyFn,        \* name in the program -> end
     P |-> EmptyFn,        \* pings
     owe |-> {}, pend |-> {}, aw |-> {}]

CNames == {"conn", "refused", "acc", "sess", "ended", "told", "ping", "lclose", "answers", "silent", "scen", "quiet"}
Cnt0 == [c \in CNames |-> 0]
Init == i = 0 /\ s = [f |-> Init0("", 0), v |-> << >>, nv |-> 0, c |-> Cnt0]

(* x is [f |-> state, b |-> set of <<property, why>>] *)
Bad(x, p, why) == [x EXCEPT !.b = @ \cup {<<p, why>>}]
BadIf(x, cond, p, why) == IF cond THEN Bad(x, p, why) ELSE x
RECURSIVE BadAll(_, _, _)
BadAll(x, ps, why) == IF ps = {} THEN x ELSE LET p == CHOOSE q \in ps : TRUE IN BadAll(Bad(x, p, why), ps \ {p}, why)

SKey(k) == "S" \o ToString(k)
Put(fn, k, v) == (k :> v) @@ fn

NewEnd(own, peer, l, T) ==
    [own |-> own, peer |-> peer, l |-> l, t0 |-> T, lo |-> T, hi |-> T, may |-> -1, must |-> -1, cause |-> "",
     told |-> 0, err |-> FALSE, api |-> "", apiT |-> -1, off |-> FALSE, strange |-> FALSE, maybe |-> FALSE]

MayClosed(e, T) == e.may >= 0 \/ T - e.lo >= Silence
SurelyOver(e, T) == (e.must >= 0 /\ T > e.must + Soon) \/ T - e.hi > Silence + Soon

Ended(e, T, cause, must) ==
    [e EXCEPT !.may = IF @ < 0 THEN T ELSE @,
              !.must = IF must /\ @ < 0 THEN T ELSE @,
              !.cause = IF must /\ e.must < 0 THEN cause ELSE @]

LiveL(f, l) == l \in DOMAIN f.L /\ f.L[l].st = "listen"

CauseProp(e) == CASE e.cause = "silence" -> {"C14"} [] e.cause = "listener" -> {"C16", "C13"} [] OTHER -> {"C13"}
WithStrange(e, ps) == IF e.strange THEN ps \cup {"C22"} ELSE ps

(* ---------------------------------------------------------------- time *)
RECURSIVE EndChecks(_, _, _)
EndChecks(x, ks, T) ==
    IF ks = {} THEN x
    ELSE
    LET k == CHOOSE q \in ks : TRUE
        e0 == x.f.E[k]
        sil == e0.must < 0 /\ ~e0.maybe /\ T - e0.hi > Silence + 250
        e == IF sil THEN [Ended(e0, e0.hi + Silence, "silence", TRUE) EXCEPT !.must = e0.hi + Silence] ELSE e0
        lim == IF e.l = "" /\ e.cause # "disc" THEN ClientEnd ELSE Soon
        late == e.must >= 0 /\ e.api # "" /\ ~e.off /\ ~e.err /\ T > Max2(e.must, e.apiT) + lim
        untold == e.must >= 0 /\ e.may = e.must /\ e.cause \in {"local", "listener"} /\ e.told < Tell /\ T > e.must + Soon
        conn == e.l = "" /\ e.own \in DOMAIN x.f.C /\ x.f.C[e.own].st = "calling"
        waits == conn /\ e.must >= 0 /\ T > e.must + Soon
        x1 == [x EXCEPT !.f.E[k] = [e EXCEPT !.err = IF late THEN TRUE ELSE @, !.told = IF untold THEN Tell ELSE @]]
        x2 == IF late THEN BadAll(x1, WithStrange(e, CauseProp(e)), "recv() does not end after " \o e.cause) ELSE x1
        x3 == IF untold THEN BadAll(x2, {IF e.cause = "listener" THEN "C16" ELSE "C13"},
                                    IF e.told = 0 THEN "the peer is not told of the end" ELSE "the peer is told of the end only once, a loss hides it") ELSE x2
        x4 == IF waits THEN [Bad(x3, "C11", "connect() goes on waiting though the session is closed") EXCEPT !.f.C[e.own].st = "err"] ELSE x3
    IN  EndChecks(x4, ks \ {k}, T)

OweProp(o) == CASE o.k = "pong" -> {"C20"} [] o.k = "incompat" -> {"C12"} [] o.k = "already" -> {"C18"} [] OTHER -> {"C11"}

RECURSIVE OweChecks(_, _)
OweChecks(x, os) ==
    IF os = {} THEN x
    ELSE LET o == CHOOSE q \in os : TRUE
         IN  OweChecks(BadAll(x, OweProp(o), "no " \o o.k \o " in answer"), os \ {o})

EndOf(f, ep) == IF ep \in DOMAIN f.A THEN f.A[ep] ELSE ""

RECURSIVE PendChecks(_, _)
PendChecks(x, ps) ==
    IF ps = {} THEN x
    ELSE LET p == CHOOSE q \in ps : TRUE
         IN  PendChecks(Bad(x, "C13", p.k \o "() never returns"), ps \ {p})

OverduePend(f, T) ==
    {p \in f.pend :
        LET k == EndOf(f, p.ep)
            over == k # "" /\ f.E[k].must >= 0 /\ T > Max2(f.E[k].must, p.t) + 500
        IN  CASE p.k = "close" -> T > p.t + 1000
              [] p.k = "send" -> T > p.t + 1000
              [] OTHER -> over}

RECURSIVE ConnChecks(_, _, _)
ConnChecks(x, cs, T) ==
    IF cs = {} THEN x
    ELSE LET c == CHOOSE q \in cs : TRUE
             r == x.f.C[c]
             y == IF r.st = "calling" /\ r.exp # "" /\ T > r.expT + Now
                  THEN [Bad(x, IF r.exp = "NotSupportVersion" THEN "C12" ELSE "C23", "connect() does not fail with " \o r.exp) EXCEPT !.f.C[c].st = "err"]
                  ELSE x
         IN  ConnChecks(y, cs \ {c}, T)

RECURSIVE ListChecks(_, _, _)
ListChecks(x, ls, T) ==
    IF ls = {} THEN x
    ELSE LET l == CHOOSE q \in ls : TRUE
             r == x.f.L[l]
             y == IF r.st = "closing" /\ T > r.ct + 3000
                  THEN [Bad(x, "C16", "close() of the listener does not return") EXCEPT !.f.L[l].ct = T + 1000000]
                  ELSE x
         IN  ListChecks(y, ls \ {l}, T)

CheckAll(x, T) ==
    LET late == {o \in x.f.owe : T > o.t + Now}
        x1 == [OweChecks(x, late) EXCEPT !.f.owe = @ \ late]
        x2 == EndChecks(x1, DOMAIN x1.f.E, T)
        ps == OverduePend(x2.f, T)
        x3 == [PendChecks(x2, ps) EXCEPT !.f.pend = @ \ ps]
        x4 == ConnChecks(x3, DOMAIN x3.f.C, T)
    IN  ListChecks(x4, DOMAIN x4.f.L, T)

TimePasses(x, T) ==
    IF T <= x.f.t THEN x
    ELSE IF x.f.micro = 1 \/ T - x.f.chk < 20 THEN [x EXCEPT !.f.t = T]
    ELSE [CheckAll(x, T) EXCEPT !.f.t = T, !.f.chk = T]

(* ---------------------------------------------------------------- listeners *)
OnBind(x, e) ==
    IF e.res # "ok" THEN Bad(x, "C16", "the address cannot be bound again: " \o e.res)
    ELSE [x EXCEPT !.f.L = Put(@, e.l, [st |-> "bound", motd |-> "", mk |-> TRUE, ct |-> 0, was |-> FALSE]),
                   !.f.Q = Put(@, e.l, << >>),
                   \* the address has a new owner: who still tries to connect to it gets to that one
                   !.f.C = [c \in DOMAIN @ |-> IF @[c].to = e.was THEN [@[c] EXCEPT !.to = e.l, !.remote = IF @ = e.was THEN e.l ELSE @] ELSE @[c]]]

OnListen(x, e) ==
    IF e.l \notin DOMAIN x.f.L THEN x
    ELSE IF x.f.L[e.l].st # "bound" THEN x
    ELSE [x EXCEPT !.f.L[e.l].st = "listen", !.f.L[e.l].mk = x.f.L[e.l].motd # ""]

OnMotd(x, e) == IF e.l \notin DOMAIN x.f.L THEN x ELSE [x EXCEPT !.f.L[e.l].motd = e.motd, !.f.L[e.l].mk = TRUE]

OnGetMotd(x, e) ==
    IF e.l \notin DOMAIN x.f.L \/ x.f.L[e.l].st \notin {"bound", "listen"} THEN x
    ELSE LET r == x.f.L[e.l]
         IN  IF r.mk THEN BadIf(x, e.motd # r.motd, "C20", "get_motd() is not what was set")
             ELSE [x EXCEPT !.f.L[e.l].motd = e.motd, !.f.L[e.l].mk = TRUE]

OnGetVer(x, e) ==
    LET k == <<e.l, e.peer>>
        want == IF k \in DOMAIN x.f.V THEN x.f.V[k] ELSE 10
    IN  BadIf(x, e.ver # want, "C12", "the listener reports a wrong version of the peer")

OnLaddr(x, e) ==
    IF e.l \notin DOMAIN x.f.L \/ e.res = "none" THEN x
    ELSE IF x.f.L[e.l].st \in {"bound", "listen"} THEN BadIf(x, e.res # "ok", "C16", "local_addr() of an open listener: " \o e.res)
    ELSE IF x.f.L[e.l].st = "closed" THEN BadIf(x, e.res \in {"ok", "wrong", "panic"}, "C16", "local_addr() of a closed listener: " \o e.res)
    ELSE x

OnLClose(x, e) ==
    IF e.l \notin DOMAIN x.f.L THEN x
    ELSE [x EXCEPT !.f.L[e.l] = [@ EXCEPT !.st = "closing", !.ct = e.t, !.was = (x.f.L[e.l].st = "closed")],
                   !.f.E = [k \in DOMAIN x.f.E |-> IF x.f.E[k].l = e.l /\ ~x.f.E[k].maybe THEN Ended(x.f.E[k], e.t, "listener", TRUE)
                                                   ELSE IF x.f.E[k].l = e.l THEN Ended(x.f.E[k], e.t, "", FALSE) ELSE x.f.E[k]]]

OnLCloseRet(x, e) ==
    IF e.l \notin DOMAIN x.f.L THEN x
    ELSE
    LET f == x.f
        untold == {k \in DOMAIN f.E : f.E[k].l = e.l /\ f.E[k].may >= 0 /\ f.E[k].may = f.E[k].must /\ f.E[k].cause \in {"listener", "local"} /\ f.E[k].told = 0}
        x1 == [x EXCEPT !.f.L[e.l].st = "closed"]
        x2 == BadIf(x1, e.res # "ok", "C16", "close() of the listener returned " \o e.res)
        x3 == BadIf(x2, e.live, "C16", "the port is still in use when close() has returned")
        x4 == BadIf(x3, untold # {}, "C16", "a peer is not told when close() has returned")
    IN  x4

OnLDropped(x, e) ==
    IF e.l \notin DOMAIN x.f.L THEN x
    ELSE [x EXCEPT !.f.L[e.l].st = "dropped",
                   !.f.E = [k \in DOMAIN x.f.E |-> IF x.f.E[k].l = e.l THEN Ended(x.f.E[k], e.t, "", FALSE) ELSE x.f.E[k]]]

(* ---------------------------------------------------------------- accept *)
RECURSIVE FirstFor(_, _, _, _)
FirstFor(f, q, j, peer) ==     \* position in q of the session handed out, 0 if there is none; sessions that may not exist are skipped
    IF j > Len(q) THEN 0
    ELSE IF f.S[q[j]].a = peer THEN j
    ELSE IF f.S[q[j]].maybe THEN FirstFor(f, q, j + 1, peer)
    ELSE 0

OnAccept(x, e) ==
    IF e.l \notin DOMAIN x.f.L THEN x
    ELSE
    LET f == x.f
        st == f.L[e.l].st
        q == f.Q[e.l]
        sure == {k \in 1 .. Len(q) : ~f.S[q[k]].maybe}
        x0 == [x EXCEPT !.f.aw = IF e.blk THEN @ \ {e.l} ELSE @]
    IN
    IF e.res = "pending" THEN
        IF f.micro = 1 \/ e.l \in f.aw THEN x0
        ELSE BadIf(IF st = "listen" /\ sure # {} THEN BadAll(x0, {"C19", "C11"}, "an established connection is not handed out") ELSE x0,
                   st \in {"closed", "bound"}, "C16", "accept() waits on a listener that does not listen")
    ELSE IF e.res # "ok" THEN
        BadIf(x0, st = "listen", "C19", "accept() failed: " \o e.res)
    ELSE
    LET j == FirstFor(f, q, 1, e.peer)
        any == {k \in 1 .. Len(q) : f.S[q[k]].a = e.peer}
        x1 == BadIf(x0, st = "closed", "C16", "accept() on a closed listener returned a connection")
    IN  IF any = {} THEN BadAll(x1, {"C11", "C19"}, "a connection is handed out twice or was never established")
        ELSE
        LET k == IF j > 0 THEN j ELSE MinOf(any)
            n == q[k]
            key == SKey(n)
            rest == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
            kept == IF j > 0 THEN SubSeq(q, k + 1, Len(q)) ELSE rest
            x2 == BadIf(x1, j = 0, "C19", "connections are handed out in the wrong order")
            x3 == BadIf(x2, e.ver # f.S[n].ver /\ ~f.S[n].maybe, "C12", "the accepted connection reports a wrong version")
            x4 == BadIf(x3, ~e.laok, "C11", "local_addr() of an accepted connection is wrong")
            \* when it is not known whether this one exists it may be the next one of that peer as well
            next == IF f.S[n].maybe THEN {q[g] : g \in {h \in 1 .. Len(q) : h # k /\ f.S[q[h]].a = e.peer}} ELSE {}
            x5 == [x4 EXCEPT !.f.S = [g \in DOMAIN @ |-> IF g \in next THEN [@[g] EXCEPT !.maybe = TRUE] ELSE @[g]],
                             !.f.E = [g \in DOMAIN @ |-> IF g \in {SKey(h) : h \in next}
                                                         THEN [@[g] EXCEPT !.maybe = TRUE, !.told = Tell, !.may = IF @ < 0 THEN e.t ELSE @] ELSE @[g]]]
        IN  [x5 EXCEPT !.f.Q[e.l] = kept, !.f.A = Put(@, e.ep, key),
                       !.f.E[key].api = e.ep, !.f.E[key].apiT = e.t]

(* ---------------------------------------------------------------- clients *)
OnConnCall(x, e) ==
    [x EXCEPT !.f.C = Put(@, e.ep, [to |-> e.to, ver |-> e.ver, t |-> e.t, st |-> "calling", stage |-> 1, remote |-> "",
                                    mtu |-> 0, acc |-> FALSE, exp |-> "", expT |-> 0, badrx |-> FALSE])]

OnConnRet(x, e) ==
    IF e.ep \notin DOMAIN x.f.C \/ x.f.C[e.ep].st = "gone" THEN x
    ELSE
    LET f == x.f
        r == f.C[e.ep]
        has == e.ep \in DOMAIN f.E
        x1 == [x EXCEPT !.f.C[e.ep].st = IF e.res = "ok" THEN "ok" ELSE "err"]
    IN
    IF e.res = "ok" THEN
        LET y1 == IF r.stage # 3 \/ ~r.acc THEN Bad(x1, "C11", "connect() returned before the server accepted") ELSE x1
            y2 == BadIf(y1, e.peer # r.to \/ ~e.portok, "C11", "the addresses of the connection are wrong")
            y3 == BadIf(y2, e.ver # r.ver, "C12", "the connection reports a wrong version")
            y4 == BadIf(y3, r.ver \notin Versions /\ r.to \in DOMAIN f.L, "C12", "connect() succeeded with an unsupported version")
        IN  IF has THEN [y4 EXCEPT !.f.A = Put(@, e.ep, e.ep), !.f.E[e.ep].api = e.ep, !.f.E[e.ep].apiT = e.t] ELSE y4
    ELSE IF e.res = "NotSupportVersion" THEN BadIf(x1, r.exp # "NotSupportVersion", "C12", "NotSupportVersion though the version is supported")
    ELSE IF e.res = "ConnectionClosed" THEN
        IF has /\ MayClosed(f.E[e.ep], e.t) THEN x1
        ELSE BadAll(x1, {"C11"} \cup (IF has /\ f.E[e.ep].strange THEN {"C22"} ELSE {}), "connect() failed with ConnectionClosed for no reason")
    ELSE IF e.res = "IncorrectReply" /\ r.exp = "IncorrectReply" THEN x1
    ELSE IF e.res = "PacketParseError" /\ r.badrx THEN x1
    ELSE Bad(x1, "C11", "connect() failed with " \o e.res)

OnCancel(x, e) ==
    LET y == IF e.k = "connect" /\ e.ep \in DOMAIN x.f.C /\ x.f.C[e.ep].st = "calling"
             THEN [x EXCEPT !.f.C[e.ep].st = "gone"] ELSE x
        z == IF e.k = "connect" /\ e.ep \in DOMAIN x.f.E THEN [y EXCEPT !.f.E[e.ep] = [Ended(@, e.t, "", FALSE) EXCEPT !.off = TRUE]] ELSE y
        w == IF e.k = "ping" /\ e.ep \in DOMAIN x.f.P THEN [z EXCEPT !.f.P[e.ep].st = "gone"] ELSE z
    IN  [w EXCEPT !.f.pend = {p \in @ : ~(p.k = e.k /\ p.ep = e.ep)}]

(* a datagram reaches client c *)
ClientRx(x, e) ==
    LET c == e.dst
        r == x.f.C[c]
        T == e.t
    IN
    IF r.stage = 1 THEN
        IF r.st # "calling" THEN x
        ELSE IF e.k = "rep1" THEN
            IF e.mtu < LeastMtu THEN [x EXCEPT !.f.C[c] = [@ EXCEPT !.exp = "IncorrectReply", !.expT = T, !.stage = 0, !.mtu = e.mtu]]
            ELSE [x EXCEPT !.f.C[c] = [@ EXCEPT !.stage = 2, !.remote = e.src, !.mtu = e.mtu]]
        ELSE IF e.k = "incompat" \/ (e.k = "bad" /\ e.b0 = 25) THEN [x EXCEPT !.f.C[c] = [@ EXCEPT !.exp = "NotSupportVersion", !.expT = T, !.stage = 0]]
        ELSE IF e.k = "bad" /\ e.b0 = 6 THEN [x EXCEPT !.f.C[c].badrx = TRUE]
        ELSE x
    ELSE IF r.stage = 2 THEN
        IF e.src # r.remote THEN x
        ELSE IF e.k = "rep2" THEN [x EXCEPT !.f.C[c].stage = 3, !.f.E = Put(@, c, NewEnd(c, e.src, "", T))]
        ELSE IF e.k = "bad" /\ e.b0 = 8 THEN [x EXCEPT !.f.C[c].badrx = TRUE]
        ELSE x
    ELSE IF r.stage = 3 THEN
        IF e.src # r.remote THEN [x EXCEPT !.f.E[c].strange = TRUE]
        ELSE
        LET en == x.f.E[c]
            e1 == IF MayClosed(en, T) /\ en.must >= 0 THEN en
                  ELSE [en EXCEPT !.hi = IF e.sz > 0 THEN T ELSE @, !.lo = IF e.k \in {"frames", "ack", "nack"} THEN T ELSE @]
            e2 == IF e.k = "disc" \/ (e.b0 = 21 /\ e.sz > 0) THEN Ended(e1, T, "disc", e.k = "disc") ELSE e1
            e3 == IF e.k = "frames" /\ "disc" \in ToSet(e.cs) THEN Ended(e2, T, "", FALSE) ELSE e2
        IN  [x EXCEPT !.f.E[c] = e3, !.f.C[c].acc = @ \/ (e.k = "frames" /\ "accepted" \in ToSet(e.cs))]
    ELSE x

ClientTx(x, e) ==
    LET r == x.f.C[e.src]
        x1 == IF e.k = "disc" /\ e.src \in DOMAIN x.f.E
              THEN [BadIf(x, ~MayClosed(x.f.E[e.src], e.t), "C13", "announces the end of an open connection") EXCEPT !.f.E[e.src].told = @ + 1] ELSE x
    IN  CASE e.k = "req1" -> BadIf(x1, e.ver # r.ver, "C12", "asks for another version than requested")
          [] e.k = "req2" -> BadIf(BadIf(x1, r.stage = 0, "C23", "request 2 though the reply was refused"),
                                   r.stage >= 2 /\ e.mtu # NegotiatedMtu(r.mtu), "C23", "asks for an MTU that was not agreed")
          [] OTHER -> x1

(* ---------------------------------------------------------------- the listener's side of the wire *)
OnlyOwe(x, o) == [x EXCEPT !.f.owe = @ \cup {o}]

ListenerRx(x, e) ==
    LET f == x.f
        l == e.dst
        a == e.src
        T == e.t
        k == <<l, a>>
        has == k \in DOMAIN f.cur
        key == IF has THEN SKey(f.cur[k]) ELSE ""
        up == f.L[l].st = "listen"
    IN
    IF e.k = "ping" THEN IF up /\ e.ok THEN OnlyOwe(x, [k |-> "pong", l |-> l, a |-> a, t |-> T]) ELSE x
    ELSE IF e.k = "req1" THEN
        IF ~up \/ ~e.ok THEN x
        ELSE LET y == [x EXCEPT !.f.LV = Put(@, k, e.ver), !.f.V = IF e.ver \in Versions THEN Put(@, k, e.ver) ELSE @]
             IN  OnlyOwe(y, [k |-> IF e.ver \in Versions THEN "rep1" ELSE "incompat", l |-> l, a |-> a, t |-> T])
    ELSE IF e.k = "req2" THEN
        IF ~up \/ ~e.ok THEN x
        ELSE
        LET y == [x EXCEPT !.f.G = Put(@, k, [guid |-> e.guid, mtu |-> e.mtu])]
            room == Len(f.Q[l]) < Backlog
            en == f.E[key]
        IN  IF e.mtu < LeastMtu \/ k \notin DOMAIN f.V THEN y
            ELSE IF ~has \/ SurelyOver(en, T) THEN IF room THEN OnlyOwe(y, [k |-> "rep2", l |-> l, a |-> a, t |-> T]) ELSE y
            ELSE IF MayClosed(en, T) THEN y
            ELSE IF f.S[f.cur[k]].guid = e.guid THEN OnlyOwe(y, [k |-> "rep2", l |-> l, a |-> a, t |-> T])
            ELSE OnlyOwe(y, [k |-> "already", l |-> l, a |-> a, t |-> T])
    ELSE IF ~has THEN x
    ELSE
    LET en == f.E[key]
        e1 == IF en.must >= 0 THEN en
              ELSE [en EXCEPT !.hi = IF e.sz > 0 THEN T ELSE @, !.lo = IF e.k \in {"frames", "ack", "nack"} THEN T ELSE @]
        e2 == IF e.k = "disc" \/ (e.b0 = 21 /\ e.sz > 0) THEN Ended(e1, T, "disc", e.k = "disc" /\ ~en.maybe) ELSE e1
        e3 == IF e.k = "frames" /\ "disc" \in ToSet(e.cs) THEN Ended(e2, T, "", FALSE) ELSE e2
    IN  [x EXCEPT !.f.E[key] = e3]

NewSession(x, e, maybe) ==
    LET f == x.f
        l == e.src
        a == e.dst
        k == <<l, a>>
        n == Len(f.S) + 1
        ver == IF k \in DOMAIN f.V THEN f.V[k] ELSE 10
        en == NewEnd(l, a, l, e.t)
        x1 == BadIf(x, f.L[l].st # "listen" /\ f.micro = 0, "C16", "a new connection on a closed listener")
        x2 == BadIf(x1, k \in DOMAIN f.LV /\ f.LV[k] \notin Versions /\ ~(k \in DOMAIN f.V), "C12", "a connection for an unsupported version")
    IN  [x2 EXCEPT !.f.S = Append(@, [l |-> l, a |-> a, guid |-> IF k \in DOMAIN f.G THEN f.G[k].guid ELSE "", ver |-> ver, maybe |-> maybe]),
                   !.f.cur = Put(@, k, n),
                   !.f.Q[l] = Append(@, n),
                   \* it is not known which of the two a farewell comes from
                   !.f.E = Put(IF maybe /\ k \in DOMAIN f.cur THEN [@ EXCEPT ![SKey(f.cur[k])].told = Tell] ELSE @,
                               SKey(n), IF maybe THEN [en EXCEPT !.may = e.t, !.maybe = TRUE] ELSE en)]

ListenerTx(x0, e) ==
    LET l == e.src
        a == e.dst
        T == e.t
        k == <<l, a>>
        x == [x0 EXCEPT !.f.owe = {o \in @ : ~(o.l = l /\ o.a = a /\ o.k = e.k)}]
        f == x.f
        has == k \in DOMAIN f.cur
        key == IF has THEN SKey(f.cur[k]) ELSE ""
        live == has /\ ~MayClosed(f.E[key], T)
        over == ~has \/ SurelyOver(f.E[key], T)
        same == has /\ k \in DOMAIN f.G /\ f.S[f.cur[k]].guid = f.G[k].guid
        g == IF k \in DOMAIN f.G THEN f.G[k] ELSE [guid |-> "", mtu |-> 0]
        z == BadIf(x, f.L[l].st = "closed", "C16", "a closed listener still sends")
    IN
    CASE e.k = "rep2" ->
            LET y1 == BadIf(z, k \notin DOMAIN f.G, "C11", "reply 2 without a request")
                y2 == BadIf(y1, g.mtu < LeastMtu, "C23", "a connection for a peer whose MTU is too small")
                y3 == BadIf(y2, e.mtu # NegotiatedMtu(g.mtu), "C23", "replies with an MTU that was not agreed")
            IN  IF live THEN BadIf(y3, ~same, "C18", "the request of somebody else is answered while the peer is connected")
                ELSE IF over \/ ~same THEN NewSession(y3, e, FALSE)
                ELSE NewSession(y3, e, TRUE)
      [] e.k = "already" ->
            BadIf(BadIf(z, over, "C18", "refuses a connection although there is none"),
                  live /\ same, "C11", "the peer whose reply was lost is refused")
      [] e.k = "rep1" ->
            BadIf(BadIf(z, k \in DOMAIN f.LV /\ f.LV[k] \notin Versions, "C12", "reply 1 to an unsupported version"),
                  e.mtu > AskedMtu, "C23", "offers an MTU larger than 1400")
      [] e.k = "incompat" -> BadIf(z, k \in DOMAIN f.LV /\ f.LV[k] \in Versions, "C12", "refuses a supported version")
      [] e.k = "pong" ->
            IF f.L[l].mk THEN BadIf(z, e.motd # f.L[l].motd, "C20", "the motd on the wire is not the current one")
            ELSE [z EXCEPT !.f.L[l].motd = e.motd, !.f.L[l].mk = TRUE]
      [] e.k = "disc" -> IF has THEN [BadIf(z, live, "C13", "announces the end of an open connection") EXCEPT !.f.E[key].told = @ + 1] ELSE z
      [] OTHER -> z

(* ---------------------------------------------------------------- pings *)
OnPingCall(x, e) == [x EXCEPT !.f.P = Put(@, e.g, [l |-> e.l, t |-> e.t, st |-> "calling", pongs |-> {}, last |-> -1, junk |-> 0])]
PingRx(x, e) ==
    IF e.k = "pong" /\ x.f.P[e.dst].st = "calling"
    THEN [x EXCEPT !.f.P[e.dst].pongs = @ \cup {e.motd}, !.f.P[e.dst].last = IF @ < 0 THEN e.t ELSE @]
    ELSE [x EXCEPT !.f.P[e.dst].junk = @ + 1]         \* whatever else arrives may delay it, by 2 s each
OnPingRet(x, e) ==
    IF e.g \notin DOMAIN x.f.P THEN x
    ELSE
    LET r == x.f.P[e.g]
        y == [x EXCEPT !.f.P[e.g].st = "done"]
    IN  IF e.res # "ok" THEN Bad(y, "C20", "ping() failed with " \o e.res)
        ELSE BadIf(BadIf(y, e.motd \notin r.pongs, "C20", "ping() returns another motd than it received"),
                   e.lat < 0 \/ e.lat > e.t - r.t, "C20", "the latency is negative or larger than the call took")

(* ---------------------------------------------------------------- calls on connections *)
DefClosed(f, ep, T) ==      \* calls on ep that begin now can only report the end
    LET k == EndOf(f, ep) IN k # "" /\ (f.E[k].err \/ (f.E[k].must >= 0 /\ T > f.E[k].must + Now /\ f.micro = 0))

OnCall(x, e, kind, id) ==
    [x EXCEPT !.f.pend = @ \cup {[k |-> kind, ep |-> e.ep, id |-> id, t |-> e.t, closed |-> DefClosed(x.f, e.ep, e.t)]}]

Unexplained(x, e, what) ==
    LET k == EndOf(x.f, e.ep)
    IN  IF k = "" THEN x
        ELSE IF MayClosed(x.f.E[k], e.t) THEN x
        ELSE BadAll(x, WithStrange(x.f.E[k], {"C13", "C14"}), what \o " says ConnectionClosed on a connection that nobody closed")

OnRet(x, e, kind, id) ==
    LET ps == {p \in x.f.pend : p.k = kind /\ p.ep = e.ep /\ p.id = id}
        x1 == [x EXCEPT !.f.pend = @ \ ps]
        x2 == IF \E p \in ps : p.closed /\ e.res \notin {"ConnectionClosed", "PacketHeaderError"}
              THEN LET k == EndOf(x.f, e.ep) IN BadAll(x1, CauseProp(x.f.E[k]), kind \o "() on a closed connection returned " \o e.res) ELSE x1
        x3 == IF e.res = "ConnectionClosed" THEN Unexplained(x2, e, kind \o "()") ELSE x2
    IN  BadIf(x3, e.res = "panic", "C13", kind \o "() panicked")

OnClose(x, e) ==
    LET k == EndOf(x.f, e.ep)
        y == OnCall(x, e, "close", 0)
    IN  IF k = "" THEN y ELSE [y EXCEPT !.f.E[k] = Ended(@, e.t, "local", ~@.maybe)]

OnCloseRet(x, e) ==
    LET ps == {p \in x.f.pend : p.k = "close" /\ p.ep = e.ep}
        one == IF ps = {} THEN {} ELSE {CHOOSE p \in ps : TRUE}
    IN  BadIf([x EXCEPT !.f.pend = @ \ one], e.res # "ok", "C13", "close() returned " \o e.res)

OnDropped(x, e) ==
    LET k == EndOf(x.f, e.ep)
        y == [x EXCEPT !.f.pend = {p \in @ : p.ep # e.ep}]
    IN  IF k = "" THEN y ELSE [y EXCEPT !.f.E[k] = [Ended(@, e.t, "local", ~@.maybe) EXCEPT !.off = TRUE]]

OnRecvErr(x, e) ==
    LET k == EndOf(x.f, e.ep)
        y == BadIf(x, e.res # "ConnectionClosed", "C13", "recv() returned " \o e.res)
        z == Unexplained(y, e, "recv()")
    IN  IF k = "" THEN z ELSE [z EXCEPT !.f.E[k].err = TRUE]

OnStall(x, e, off) ==
    LET k == EndOf(x.f, e.ep)
    IN  IF k = "" THEN x ELSE [x EXCEPT !.f.E[k].off = off, !.f.E[k].apiT = e.t]

OnDlv(x, e) ==
    LET k == EndOf(x.f, e.ep)
    IN  BadIf(x, k # "" /\ x.f.E[k].err, "C13", "recv() returns data after it said ConnectionClosed")

(* ---------------------------------------------------------------- rest *)
RECURSIVE QuietConn(_, _, _)
QuietConn(x, cs, T) ==
    IF cs = {} THEN x
    ELSE
    LET c == CHOOSE q \in cs : TRUE
        f == x.f
        r == f.C[c]
        l == r.to
        calling == {q \in DOMAIN f.C : f.C[q].st = "calling" /\ f.C[q].to = l}
        room == LiveL(f, l) /\ Len(f.Q[l]) + Cardinality(calling) <= Backlog
        fair == f.fair >= 0 /\ T - Max2(f.fair, r.t) > 8000 + 2 * Max2(0, f.fair - r.t)
        y == IF r.st = "calling" /\ fair /\ room
             THEN [IF r.ver \in Versions THEN BadAll(x, {"C11", "C19"}, "connect() does not return") ELSE Bad(x, "C12", "connect() with an unsupported version does not return")
                     EXCEPT !.f.C[c].st = "err"]
             ELSE x
    IN  QuietConn(y, cs \ {c}, T)

RECURSIVE QuietPing(_, _, _)
QuietPing(x, gs, T) ==
    IF gs = {} THEN x
    ELSE
    LET g == CHOOSE q \in gs : TRUE
        f == x.f
        r == f.P[g]
        stuck == \/ (LiveL(f, r.l) /\ f.fair >= 0 /\ T - Max2(f.fair, r.t) > 9000 + 2400 * r.junk)
                 \/ (r.last >= 0 /\ T - r.last > 2600 + 2400 * r.junk)
        y == IF r.st = "calling" /\ stuck THEN [Bad(x, "C20", "ping() does not return") EXCEPT !.f.P[g].st = "done"] ELSE x
    IN  QuietPing(y, gs \ {g}, T)

RECURSIVE QuietAccept(_, _)
QuietAccept(x, ls) ==
    IF ls = {} THEN x
    ELSE LET l == CHOOSE q \in ls : TRUE
             y == IF LiveL(x.f, l) /\ \E k \in 1 .. Len(x.f.Q[l]) : ~x.f.S[x.f.Q[l][k]].maybe
                  THEN BadAll(x, {"C11", "C19"}, "accept() waits though a connection is established") ELSE x
         IN  QuietAccept(y, ls \ {l})

OnQuiet(x, e) ==
    IF x.f.micro = 1 /\ (x.f.fair < 0 \/ e.t - x.f.fair < 12000) THEN x
    ELSE LET x1 == CheckAll(x, e.t)
             x2 == QuietConn(x1, DOMAIN x1.f.C, e.t)
             x3 == QuietPing(x2, DOMAIN x2.f.P, e.t)
         IN  [QuietAccept(x3, x3.f.aw) EXCEPT !.f.t = e.t, !.f.chk = e.t]

OnRx(x, e) ==
    IF e.dst \in DOMAIN x.f.C THEN ClientRx(x, e)
    ELSE IF e.dst \in DOMAIN x.f.L THEN ListenerRx(x, e)
    ELSE IF e.dst \in DOMAIN x.f.P THEN PingRx(x, e)
    ELSE x
OnTx(x, e) ==
    IF e.src \in DOMAIN x.f.C THEN ClientTx(x, e)
    ELSE IF e.src \in DOMAIN x.f.L THEN ListenerTx(x, e)
    ELSE x

Handle(x, e) ==
    CASE e.e = "rx" -> OnRx(x, e)
      [] e.e = "tx" -> OnTx(x, e)
      [] e.e = "bindret" -> OnBind(x, e)
      [] e.e = "listen" -> OnListen(x, e)
      [] e.e = "motd" -> OnMotd(x, e)
      [] e.e = "getmotd" -> OnGetMotd(x, e)
      [] e.e = "getver" -> OnGetVer(x, e)
      [] e.e = "laddr" -> OnLaddr(x, e)
      [] e.e = "conncall" -> OnConnCall(x, e)
      [] e.e = "connret" -> OnConnRet(x, e)
      [] e.e = "accret" -> OnAccept(x, e)
      [] e.e = "acceptcall" -> [x EXCEPT !.f.aw = @ \cup {e.l}]
      [] e.e = "cancel" -> OnCancel(x, e)
      [] e.e = "pingcall" -> OnPingCall(x, e)
      [] e.e = "pingret" -> OnPingRet(x, e)
      [] e.e = "send" -> OnCall(x, e, "send", e.m)
      [] e.e = "sendret" -> OnRet(x, e, "send", e.m)
      [] e.e = "flush" -> OnCall(x, e, "flush", e.id)
      [] e.e = "flushret" -> OnRet(x, e, "flush", e.id)
      [] e.e = "close" -> OnClose(x, e)
      [] e.e = "closeret" -> OnCloseRet(x, e)
      [] e.e = "dropped" -> OnDropped(x, e)
      [] e.e = "recverr" -> OnRecvErr(x, e)
      [] e.e = "dlv" -> OnDlv(x, e)
      [] e.e = "stall" -> OnStall(x, e, TRUE)
      [] e.e = "unstall" -> OnStall(x, e, FALSE)
      [] e.e = "lclose" -> OnLClose(x, e)
      [] e.e = "lcloseret" -> OnLCloseRet(x, e)
      [] e.e = "ldropped" -> OnLDropped(x, e)
      [] e.e = "net" -> [x EXCEPT !.f.fair = IF e.fair THEN (IF @ < 0 THEN e.t ELSE @) ELSE -1]
      [] e.e = "quiet" -> OnQuiet(x, e)
      [] OTHER -> x

Count(c, e, x, y) ==
    CASE e.e = "connret" -> IF e.res = "ok" THEN [c EXCEPT !.conn = @ + 1] ELSE [c EXCEPT !.refused = @ + 1]
      [] e.e = "accret" /\ e.res = "ok" -> [c EXCEPT !.acc = @ + 1]
      [] e.e = "recverr" -> [c EXCEPT !.ended = @ + 1,
                               !.silent = IF EndOf(y.f, e.ep) # "" /\ y.f.E[EndOf(y.f, e.ep)].must < 0 THEN @ + 1 ELSE @]
      [] e.e = "pingret" -> [c EXCEPT !.ping = @ + 1]
      [] e.e = "lcloseret" -> [c EXCEPT !.lclose = @ + 1]
      [] e.e = "tx" -> [c EXCEPT !.sess = @ + (Len(y.f.S) - Len(x.f.S)),
                           !.told = IF e.k = "disc" THEN @ + 1 ELSE @,
                           !.answers = @ + (Cardinality(x.f.owe) - Cardinality(y.f.owe))]
      [] e.e = "quiet" -> [c EXCEPT !.quiet = @ + 1]
      [] OTHER -> c

RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN << >> ELSE LET a == CHOOSE z \in S : TRUE IN <<a>> \o SeqOfSet(S \ {a})

Step(st, e, k) ==
    IF e.e = "reset" THEN [st EXCEPT !.f = Init0(e.seg, e.micro), !.c.scen = @ + 1]
    ELSE LET x0 == TimePasses([f |-> st.f, b |-> {}], e.t)
             y  == Handle(x0, e)
             w  == SeqOfSet({b \in y.b : Cardinality({j \in 1 .. Len(st.v) : st.v[j].p = b[1]}) < 12})
         IN  [f |-> y.f, c |-> Count(st.c, e, x0, y), nv |-> st.nv + Cardinality(y.b),
              v |-> IF w = << >> THEN st.v
                    ELSE st.v \o [j \in 1 .. Len(w) |-> [p |-> w[j][1], why |-> w[j][2], seg |-> st.f.seg, line |-> k, t |-> e.t]]]

Next ==
    /\ i < N
    /\ i' = i + 1
    /\ s' = Step(s, Trace[i + 1], i + 1)

Spec == Init /\ [][Next]_vars
View == i

Report ==
    i = N => PrintT("RESULT " \o ToJson([n |-> N, nv |-> s.nv, v |-> s.v, c |-> s.c]))
=============================================================================
