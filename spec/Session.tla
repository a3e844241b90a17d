------------------------------ MODULE Session ------------------------------
(* The life of connections as a closed system: one listener, attempts to connect from several addresses (one after *)
(* another from the same address), a network that loses, repeats and reorders, applications that accept, close,    *)
(* give up and close the listener at any moment. What the ends say inside a connection is left out but for the      *)
(* first exchange and one message; repetition stands for the layer below (Arq). Moments are left open: every        *)
(* timeout may strike at any time.                                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
    At,          \* At[a]: the address attempt a comes from
    Ver,         \* Ver[a]: the version it asks for
    Good,        \* supported versions
    Backlog,     \* sessions waiting for accept()
    MaxDup, MaxLoss,
    Hold,        \* may the network hold datagrams of one connection back until the next one from that address is up?
    Tells,       \* how often an end announces that it ends
    MaxSilence,  \* how often the network is silent so long that an end gives up although its peer is there
    CanCancel, CanLClose,
    CClosing,    \* may clients close?
    SData,       \* may the listener's sessions send?
    Rude,        \* do clients that ask for a version that is not supported go on all the same?
    SClosing     \* how many of the listener's sessions may be closed by the application

VARIABLES
    cl,          \* attempt -> [st, res]
    ses,         \* the listener's sessions in the order they were made: [at, by, ver, st, out, est, told, cause]
    cur,         \* address -> session of that address, 0 if none
    queue,       \* sessions that wait for accept()
    out,         \* sessions handed out, in order
    lst,         \* the listener: "open", "closing", "closed"
    V,           \* address -> supported version asked for last, 0 if none
    net,         \* datagrams in flight: [k, a (address), w (whose), up (to the listener)]
    data,        \* messages received: [s or c, from]
    dups, losses, silences

vars == <<cl, ses, cur, queue, out, lst, V, net, data, dups, losses, silences>>
Attempts == DOMAIN At
Addrs == {At[a] : a \in Attempts}
Range(q) == {q[j] : j \in 1 .. Len(q)}

Init ==
    /\ cl = [a \in Attempts |-> [st |-> "idle", res |-> "", told |-> 0, cause |-> ""]]
    /\ ses = << >> /\ cur = [x \in Addrs |-> 0] /\ queue = << >> /\ out = << >> /\ lst = "open"
    /\ V = [x \in Addrs |-> 0] /\ net = {} /\ data = {} /\ dups = 0 /\ losses = 0 /\ silences = 0

Up(k, a) == [k |-> k, a |-> At[a], w |-> a, up |-> TRUE]
Down(k, x, s) == [k |-> k, a |-> x, w |-> s, up |-> FALSE]
Live(s) == ses[s].st = "live"
Owner(x) == {a \in Attempts : At[a] = x /\ cl[a].st \notin {"idle", "gone"}}   \* the attempt that holds the address
Ended(s, why) == IF ses[s].st = "live" THEN [ses EXCEPT ![s].st = "closed", ![s].cause = why] ELSE ses

(* datagrams that can no longer change anything are dropped *)
Matters(p) ==
    IF p.up THEN /\ lst # "closed"
                 /\ p.k \in {"req1", "req2"} => lst = "open"
                 /\ p.k = "data" => ~\E d \in data : d.up /\ d.from = p.w /\ cur[p.a] = d.by
                 /\ p.k \in {"creq", "data", "disc"} /\ ~Hold => cur[p.a] # 0 /\ Live(cur[p.a])
    ELSE /\ p.k # "already"
         /\ p.k = "data" => ~\E d \in data : ~d.up /\ d.from = ses[p.w].by
         /\ \E a \in Attempts : At[a] = p.a /\ cl[a].st \in (CASE p.k \in {"rep1", "incompat"} -> {"idle", "req1"}
                                                                [] p.k = "rep2" -> {"idle", "req1", "req2"}
                                                                [] p.k = "acc" -> {"idle", "req1", "req2", "hello"}
                                                                [] OTHER -> {"idle", "req1", "req2", "hello", "up"})
Cut(ps) == {p \in ps : Matters(p)'}

(* ---------------------------------------------------------------- clients *)
Begin(a) ==
    /\ cl[a].st = "idle"
    /\ \A b \in Attempts : b < a /\ At[b] = At[a] => cl[b].st = "gone"
    /\ cl' = [cl EXCEPT ![a].st = "req1"]
    /\ UNCHANGED <<ses, cur, queue, out, lst, V, data, dups, losses, silences>>
    /\ net' = Cut((IF Hold THEN net ELSE {p \in net : p.a # At[a]}) \cup {Up("req1", a)})

(* what went unanswered is sent again *)
Again(a) ==
    /\ UNCHANGED <<cl, ses, cur, queue, out, lst, V, data, dups, losses, silences>>
    /\ \/ cl[a].st = "req1" /\ net' = Cut(net \cup {Up("req1", a)})
       \/ cl[a].st = "req2" /\ net' = Cut(net \cup {Up("req2", a)})
       \/ cl[a].st = "hello" /\ net' = Cut(net \cup {Up("creq", a)})
       \/ cl[a].st = "up" /\ <<a, TRUE>> \notin {<<d.from, d.up>> : d \in data} /\ net' = Cut(net \cup {Up("data", a)})

GoesOn(a) ==        \* a client that will be refused does not wait for the answer
    /\ Rude /\ cl[a].st = "req1" /\ Ver[a] \notin Good
    /\ UNCHANGED <<cl, ses, cur, queue, out, lst, V, data, dups, losses, silences>>
    /\ net' = Cut(net \cup {Up("req2", a)})

Cancel(a) ==        \* the application stops waiting for connect()
    /\ CanCancel
    /\ cl[a].st \in {"req1", "req2", "hello"}
    /\ cl' = [cl EXCEPT ![a].st = IF @ = "hello" THEN "closed" ELSE "gone", ![a].res = "cancelled", ![a].cause = "local"]
    /\ UNCHANGED <<ses, cur, queue, out, lst, V, data, dups, losses, silences>>
    /\ net' = Cut(net)

CClose(a) ==
    /\ CClosing
    /\ cl[a].st = "up"
    /\ cl' = [cl EXCEPT ![a].st = "closed", ![a].cause = "local"]
    /\ UNCHANGED <<ses, cur, queue, out, lst, V, data, dups, losses, silences>>
    /\ net' = Cut(net)

CTell(a) ==         \* the end announces its end, then the socket goes
    /\ cl[a].st = "closed"
    /\ UNCHANGED <<ses, cur, queue, out, lst, V, data, dups, losses, silences>>
    /\ IF cl[a].told < Tells
       THEN cl' = [cl EXCEPT ![a].told = @ + 1] /\ net' = Cut(net \cup {Up("disc", a)})
       ELSE cl' = [cl EXCEPT ![a].st = "gone"] /\ net' = Cut(net)

CSilence(a) ==      \* nothing came for a minute
    /\ cl[a].st \in {"hello", "up"}
    /\ LET alone == ~\E s \in DOMAIN ses : ses[s].by = a /\ Live(s)
       IN  /\ alone \/ silences < MaxSilence
           /\ silences' = IF alone THEN silences ELSE silences + 1
    /\ cl' = [cl EXCEPT ![a].st = "closed", ![a].res = IF @ = "" THEN "closed" ELSE @, ![a].cause = "silence"]
    /\ UNCHANGED <<ses, cur, queue, out, lst, V, data, dups, losses>>
    /\ net' = Cut(net)

(* ---------------------------------------------------------------- the network *)
Gone(p, keep) == IF keep THEN net ELSE net \ {p}
Keeping(p, keep) == keep => dups < MaxDup
Counted(keep) == dups' = IF keep THEN dups + 1 ELSE dups

Lose(p) ==
    /\ p \in net /\ losses < MaxLoss
    /\ net' = net \ {p} /\ losses' = losses + 1
    /\ UNCHANGED <<cl, ses, cur, queue, out, lst, V, data, dups, silences>>

(* a datagram reaches a client, or nobody *)
ToClient(p, keep) ==
    /\ p \in net /\ ~p.up /\ Keeping(p, keep) /\ Counted(keep)
    /\ UNCHANGED <<ses, cur, queue, out, lst, V, losses, silences>>
    /\ IF Owner(p.a) = {} THEN UNCHANGED <<cl, data>>
       ELSE LET a == CHOOSE b \in Owner(p.a) : TRUE
                st == cl[a].st
            IN  /\ cl' = CASE p.k = "rep1" /\ st = "req1" -> [cl EXCEPT ![a].st = "req2"]
                           [] p.k = "incompat" /\ st = "req1" -> [cl EXCEPT ![a].st = "gone", ![a].res = "refused"]
                           [] p.k = "rep2" /\ st = "req2" -> [cl EXCEPT ![a].st = "hello"]
                           [] p.k = "acc" /\ st = "hello" -> [cl EXCEPT ![a].st = "up", ![a].res = "ok"]
                           [] p.k = "disc" /\ st \in {"hello", "up"} ->
                                [cl EXCEPT ![a].st = "closed", ![a].res = IF @ = "" THEN "closed" ELSE @,
                                           ![a].cause = IF ses[p.w].by = a THEN "peer" ELSE "stale"]
                           [] OTHER -> cl       \* the answer "already connected" among them: it goes on asking
                /\ data' = IF p.k = "data" /\ st \in {"hello", "up"} THEN data \cup {[by |-> a, from |-> ses[p.w].by, up |-> FALSE]} ELSE data
    /\ net' = Cut(Gone(p, keep))

(* request 2 *)
Req2(p, keep) ==
    LET x == p.a
        a == p.w
        s == cur[x]
        n == Len(ses) + 1
    IN
    IF s # 0 THEN       \* a session is there: the answer is repeated, or it is somebody else's
        /\ UNCHANGED <<ses, cur, queue>>
        /\ \E k \in {"rep2", "already"} :
              /\ k = "rep2" => ses[s].by = a
              /\ k = "already" => ses[s].by # a \/ ~Live(s)     \* a session that is about to end may still answer
              /\ net' = Cut(Gone(p, keep) \cup IF lst # "open" THEN {} ELSE {Down(k, x, s)})
    ELSE IF lst # "open" \/ V[x] = 0 \/ Len(queue) >= Backlog THEN UNCHANGED <<ses, cur, queue>> /\ net' = Cut(Gone(p, keep))
    ELSE
        /\ ses' = Append(ses, [at |-> x, by |-> a, ver |-> V[x], st |-> "live", est |-> FALSE, told |-> 0, cause |-> ""])
        /\ cur' = [cur EXCEPT ![x] = n]
        /\ queue' = Append(queue, n)
        /\ net' = Cut((IF Hold THEN Gone(p, keep) ELSE {q \in Gone(p, keep) : q.a = x => (q.up /\ q.w = a)}) \cup {Down("rep2", x, n)})

ToListener(p, keep) ==
    /\ p \in net /\ p.up /\ Keeping(p, keep) /\ Counted(keep)
    /\ UNCHANGED <<cl, out, lst, losses, silences>>
    /\ LET s == cur[p.a]
           in == lst # "closed" /\ s # 0
       IN
       CASE p.k = "req1" ->
              /\ V' = IF lst = "open" /\ Ver[p.w] \in Good THEN [V EXCEPT ![p.a] = Ver[p.w]] ELSE V
              /\ UNCHANGED <<ses, cur, queue, data>>
              /\ net' = Cut(Gone(p, keep) \cup (IF lst # "open" THEN {} ELSE {Down(IF Ver[p.w] \in Good THEN "rep1" ELSE "incompat", p.a, 0)}))
         [] p.k = "req2" -> UNCHANGED <<V, data>> /\ Req2(p, keep)
         [] p.k = "creq" ->
              /\ ses' = IF in /\ Live(s) THEN [ses EXCEPT ![s].est = TRUE] ELSE ses
              /\ UNCHANGED <<cur, queue, V, data>>
              /\ net' = Cut(IF in /\ Live(s) THEN Gone(p, keep) \cup {Down("acc", p.a, s)} ELSE Gone(p, keep))
         [] p.k = "data" ->
              /\ data' = IF in /\ Live(s) THEN data \cup {[by |-> s, from |-> p.w, up |-> TRUE]} ELSE data
              /\ UNCHANGED <<ses, cur, queue, V>>
              /\ net' = Cut(Gone(p, keep))
         [] p.k = "disc" ->
              /\ ses' = IF in THEN Ended(s, IF ses[s].by = p.w THEN "peer" ELSE "stale") ELSE ses
              /\ UNCHANGED <<cur, queue, V, data>>
              /\ net' = Cut(Gone(p, keep))

(* ---------------------------------------------------------------- the listener *)
Accept ==
    /\ queue # << >> /\ lst # "closed"
    /\ out' = Append(out, Head(queue)) /\ queue' = Tail(queue)
    /\ UNCHANGED <<cl, ses, cur, lst, V, net, data, dups, losses, silences>>

SSend(s) ==         \* a message for the client
    /\ SData /\ s \in Range(out) /\ Live(s) /\ ~\E d \in data : ~d.up /\ d.from = ses[s].by
    /\ UNCHANGED <<cl, ses, cur, queue, out, lst, V, data, dups, losses, silences>>
    /\ net' = Cut(net \cup {Down("data", ses[s].at, s)})

SClose(s) ==
    /\ s <= SClosing
    /\ s \in Range(out) /\ Live(s)
    /\ ses' = Ended(s, "local")
    /\ UNCHANGED <<cl, cur, queue, out, lst, V, data, dups, losses, silences>>
    /\ net' = Cut(net)

SSilence(s) ==
    /\ s \in DOMAIN ses /\ Live(s)
    /\ LET alone == cl[ses[s].by].st = "gone"
       IN  /\ alone \/ silences < MaxSilence
           /\ silences' = IF alone THEN silences ELSE silences + 1
    /\ ses' = Ended(s, "silence")
    /\ UNCHANGED <<cl, cur, queue, out, lst, V, data, dups, losses>>
    /\ net' = Cut(net)

STell(s) ==
    /\ s \in DOMAIN ses /\ ses[s].st = "closed" /\ ses[s].told < Tells
    /\ ses' = [ses EXCEPT ![s].told = @ + 1]
    /\ UNCHANGED <<cl, cur, queue, out, lst, V, data, dups, losses, silences>>
    /\ net' = Cut(net \cup {Down("disc", ses[s].at, s)})

Collect(s) ==       \* a last farewell, then the address is free for the next one
    /\ s \in DOMAIN ses /\ ses[s].st = "closed" /\ ses[s].told >= Tells
    /\ ses' = [ses EXCEPT ![s].st = "gone"]
    /\ cur' = [cur EXCEPT ![ses[s].at] = IF @ = s THEN 0 ELSE @]
    /\ UNCHANGED <<cl, queue, out, lst, V, data, dups, losses, silences>>
    /\ net' = Cut(net \cup {Down("disc", ses[s].at, s)})

LClose ==
    /\ CanLClose
    /\ lst = "open"
    /\ lst' = "closing"
    /\ ses' = [s \in DOMAIN ses |-> IF Live(s) THEN [ses[s] EXCEPT !.st = "closed", !.cause = "listener"] ELSE ses[s]]
    /\ UNCHANGED <<cl, cur, queue, out, V, data, dups, losses, silences>>
    /\ net' = Cut(net)

LClosed ==
    /\ lst = "closing" /\ \A x \in Addrs : cur[x] = 0
    /\ lst' = "closed"
    /\ UNCHANGED <<cl, ses, cur, queue, out, V, data, dups, losses, silences>>
    /\ net' = Cut(net)

Sessions == 1 .. (Cardinality(Attempts) + SClosing + MaxSilence + MaxDup + 2)
Ends ==
    \/ \E a \in Attempts : Begin(a) \/ Again(a) \/ GoesOn(a) \/ Cancel(a) \/ CClose(a) \/ CTell(a) \/ CSilence(a)
    \/ Accept \/ LClose \/ LClosed
    \/ \E s \in DOMAIN ses : SSend(s) \/ SClose(s) \/ SSilence(s) \/ STell(s) \/ Collect(s)
Deliver(p, keep) == ToClient(p, keep) \/ ToListener(p, keep)
Next == Ends \/ \E p \in net : Lose(p) \/ \E keep \in BOOLEAN : Deliver(p, keep)
Spec == Init /\ [][Next]_vars

Some(k, up) == \E p \in net : p.k = k /\ p.up = up /\ Deliver(p, FALSE)
Fair ==
    /\ \A a \in Attempts : WF_vars(Begin(a) \/ CTell(a)) /\ WF_vars(Again(a)) /\ WF_vars(CSilence(a) /\ silences' = silences)
    /\ WF_vars(Accept) /\ WF_vars(LClosed)
    /\ \A s \in Sessions : WF_vars(STell(s) \/ Collect(s)) /\ WF_vars(SSilence(s) /\ silences' = silences)
    /\ SF_vars(Some("req1", TRUE)) /\ SF_vars(Some("req2", TRUE)) /\ SF_vars(Some("creq", TRUE))
    /\ SF_vars(Some("rep1", FALSE)) /\ SF_vars(Some("incompat", FALSE)) /\ SF_vars(Some("rep2", FALSE)) /\ SF_vars(Some("acc", FALSE))
SpecLive == Spec /\ Fair

(* ---------------------------------------------------------------- what is to hold *)
(* C11, C18: one session of an address at a time, and it is the one that is known under it *)
OnePerAddress == \A s, t \in DOMAIN ses : s # t /\ ses[s].at = ses[t].at => ses[s].st = "gone" \/ ses[t].st = "gone"
Known == \A s \in DOMAIN ses : ses[s].st # "gone" => cur[ses[s].at] = s
(* C11: an attempt makes at most one session at a time; connect() succeeds only with one of its own *)
Matched == \A a \in Attempts : cl[a].res = "ok" => \E s \in DOMAIN ses : ses[s].by = a /\ ses[s].est
OneEach == \A s, t \in DOMAIN ses : s < t /\ ses[s].by = ses[t].by => ses[s].st = "gone"
(* C12 *)
Version ==
    \A s \in DOMAIN ses :
        /\ ses[s].ver \in Good
        /\ Ver[ses[s].by] \in Good => ses[s].ver = Ver[ses[s].by]
        /\ Rude \/ Ver[ses[s].by] \in Good
        /\ \E a \in Attempts : At[a] = ses[s].at /\ Ver[a] = ses[s].ver /\ cl[a].st # "idle"
Refused == \A a \in Attempts : cl[a].res = "refused" <=> (Ver[a] \notin Good /\ cl[a].st = "gone" /\ cl[a].res # "cancelled")
(* C13, C14, C16, C18: an end ends for a reason *)
Reason == /\ \A s \in DOMAIN ses : ses[s].st # "live" => ses[s].cause \in {"local", "peer", "silence", "listener"}
          /\ \A s \in DOMAIN ses : ses[s].cause = "peer" => cl[ses[s].by].cause # ""
          /\ \A a \in Attempts : cl[a].st = "closed" => cl[a].cause \in {"local", "peer", "silence"}
          /\ \A a \in Attempts : cl[a].cause = "peer" => \E s \in DOMAIN ses : ses[s].by = a /\ ses[s].cause # ""
(* C18: nothing of the connection before it gets into a connection *)
NoLeak == \A d \in data : IF d.up THEN d.from = ses[d.by].by ELSE d.from = d.by
(* C19: handed out once each, in the order they were made; no more wait than allowed *)
InOrder == out \o queue = [j \in DOMAIN ses |-> j]
Bounded == Len(queue) <= Backlog
(* C16: when close() has returned nobody is left, and all were told *)
Empty == lst = "closed" => \A s \in DOMAIN ses : ses[s].st = "gone" /\ ses[s].told >= Tells

(* C11, C18: who asks gets a connection, unless it gives up, its version is refused, or the listener is closed *)
Connects == \A a \in Attempts : cl[a].st = "req1" ~> cl[a].res # "" \/ lst # "open"
(* C13: when one end has ended the other does too *)
BothEnd == /\ \A a \in Attempts, s \in Sessions : s \in DOMAIN ses /\ ses[s].by = a /\ cl[a].st = "gone" ~> s \in DOMAIN ses /\ ses[s].st = "gone"
           /\ \A a \in Attempts, s \in Sessions : s \in DOMAIN ses /\ ses[s].by = a /\ ses[s].st = "gone" ~> cl[a].st \notin {"hello", "up"} \/ \E t \in DOMAIN ses : t > s /\ ses[t].by = a
(* C16: close() of the listener returns *)
Closes == lst = "closing" ~> lst = "closed"
(* C19: what waits is handed out *)
HandedOut == \A s \in Sessions : s \in Range(queue) ~> s \in Range(out) \/ lst = "closed"
=============================================================================
