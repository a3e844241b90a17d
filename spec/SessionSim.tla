---------------------------- MODULE SessionSim ----------------------------
(* Behaviours of Session for replays: the crate's listener does at once what can be done at once, and ends sessions *)
(* with its next tick, so its steps are fixed by what arrives and by what the application calls. What each           *)
(* request is answered with is predicted; hist has all steps.                                                        *)
EXTENDS MCSession, Json
CONSTANTS Depth, Lazy         \* Lazy: accept() is hardly ever called before the backlog is full
VARIABLE hist

Log(x) == hist' = Append(hist, x)
Quiet == UNCHANGED hist

Answer(p) ==
    LET s == cur[p.a]
    IN  CASE lst # "open" -> "none"
          [] p.k = "req1" -> IF Ver[p.w] \in Good THEN "rep1" ELSE "incompat"
          [] p.k = "req2" /\ V[p.a] = 0 -> "none"
          [] p.k = "req2" /\ s # 0 -> IF ses[s].by # p.w THEN "already" ELSE IF Live(s) THEN "rep2"
                                       ELSE IF ses[s].cause = "local" THEN "either" ELSE "already"
          [] p.k = "req2" -> IF Len(queue) >= Backlog THEN "none" ELSE "new"
          [] OTHER -> "none"

Tick ==       \* every session that was closed is announced and collected
    /\ \E s \in DOMAIN ses : ses[s].st = "closed"
    /\ ses' = [s \in DOMAIN ses |-> IF ses[s].st = "closed" THEN [ses[s] EXCEPT !.st = "gone", !.told = Tells] ELSE ses[s]]
    /\ cur' = [x \in Addrs |-> IF cur[x] # 0 /\ ses[cur[x]].st = "closed" THEN 0 ELSE cur[x]]
    /\ UNCHANGED <<cl, queue, out, lst, V, data, dups, losses, silences>>
    /\ net' = Cut(net \cup {Down("disc", ses[s].at, s) : s \in {t \in DOMAIN ses : ses[t].st = "closed"}})

SNext ==
    \/ \E a \in Attempts : Begin(a) /\ Quiet
    \/ \E a \in Attempts : Again(a) /\ net' # net /\ Quiet
    \/ \E a \in Attempts : ((Cancel(a) /\ Len(hist) % 5 = 4) \/ CClose(a) \/ CTell(a)) /\ Quiet
    \/ \E p \in net : ToClient(p, FALSE) /\ Quiet
    \/ \E p \in net, keep \in BOOLEAN : ToListener(p, keep) /\ Log(<<"up", p.k, p.a, p.w, Answer(p)>>)
    \/ Accept /\ (Lazy => Len(queue) = Backlog \/ Len(hist) % 23 = 22) /\ lst = "open" /\ Log(<<"accept", Head(queue)>>)
    \/ \E s \in DOMAIN ses : SSend(s) /\ net' # net /\ Log(<<"ssend", s>>)
    \/ \E s \in DOMAIN ses : SClose(s) /\ Log(<<"sclose", s>>)
    \/ Tick /\ Log(<<"tick">>)
    \/ LClose /\ Len(hist) * 4 > Depth * 3 /\ Log(<<"lclose">>)
    \/ LClosed /\ Quiet

SSpec == Init /\ hist = << >> /\ [][SNext /\ Len(hist) < Depth]_<<vars, hist>>

Done == Len(hist) = Depth \/ ~ENABLED SNext
Dump == Done => PrintT("HIST " \o ToJson([h |-> hist, at |-> At, ver |-> Ver, out |-> out, n |-> Len(ses)]))
=============================================================================
