-------------------------------- MODULE MCBus --------------------------------
(***************************************************************************)
(* The design of pkg/eventbus: a read/write lock, one goroutine per copy   *)
(* of an event (sender), channels with one place, a quit signal per        *)
(* subscriber, and shutdown.  The observer of Bus.tla runs along: the set  *)
(* obs of its possible states never becomes empty iff everything the       *)
(* design lets users observe is allowed (C20-C23).                         *)
(*                                                                         *)
(* Subscribers 1..N are subscribed at the start with the topics of Subs;   *)
(* those in Stuck never receive.  Dispatchers send events, one process     *)
(* unsubscribes and one shuts down; the context of the shutdown may end.   *)
(***************************************************************************)
EXTENDS Bus

\* Mistake: "" or a design mistake that the properties must notice
CONSTANTS Stuck, Unsubs, Disps, WithShut, Mistake

None == {}
S2 == {2}
S3 == {3}
S123 == {1, 2, 3}
D1 == {"d1"}
D12 == {"d1", "d2"}

\* topics: subscriber 1 is a default subscriber, 2 has two topics, 3 has one
Subs == <<{}, {"a", "b"}, {"a"}>>
N == Len(Subs)
EvTopics == <<<<"a", "b">>, <<>>, <<"a">>>>

VARIABLES readers, writer, quit, closed, buf, senders, pc, fin, seen, sd, obs, ended
vars == <<readers, writer, quit, closed, buf, senders, pc, fin, seen, sd, obs, ended>>

\* processes: "d1", "d2" dispatchers; "u" unsubscribes; "s" shuts down; subscribers 1..N
cfg == [x |-> 0]
ReachAll(S, e) ==
  LET RECURSIVE C(_)
      C(X) == LET Y == X \cup UNION {BusSilent(cfg, x, e) : x \in X} IN IF Y = X THEN X ELSE C(Y)
  IN C(S)
Obs(e) == obs' = UNION {BusStep(cfg, x, e) : x \in ReachAll(obs, e)}
Call(k, f, s, ev, topics, full) ==
  [op |-> "call", k |-> k, f |-> f, s |-> s, topics |-> topics, ev |-> ev, full |-> full, eager |-> FALSE, ended |-> FALSE]

Init ==
  /\ readers = 0 /\ writer = FALSE /\ sd = FALSE /\ ended = FALSE
  /\ quit = [s \in 1..N |-> FALSE] /\ closed = [s \in 1..N |-> FALSE]
  /\ buf = [s \in 1..N |-> <<>>] /\ fin = [s \in 1..N |-> FALSE] /\ seen = [s \in 1..N |-> FALSE]
  /\ senders = [s \in 1..N |-> <<>>]   \* events that goroutines are trying to send
  /\ pc = [x \in {"d1", "d2", "u", "s"} |-> "start"]
  /\ obs = {[sub |-> [s \in 1..N |-> [topics |-> Subs[s], def |-> Subs[s] = {}, on |-> TRUE, out |-> NoBag, gone |-> FALSE, late |-> 0,
                                      closed |-> FALSE, fin |-> FALSE, eager |-> s \notin Stuck]],
             sd |-> FALSE, p |-> [k \in {} |-> 0]]}

EvOf(d) == IF d = "d1" THEN 1 ELSE 2
KOf(x) == CASE x = "d1" -> 1 [] x = "d2" -> 2 [] x = "u" -> 3 [] x = "s" -> 4

Start(x) ==
  /\ pc[x] = "start" /\ x \in Disps \cup (IF Unsubs # {} THEN {"u"} ELSE {}) \cup (IF WithShut THEN {"s"} ELSE {})
  /\ pc' = [pc EXCEPT ![x] = "lock"]
  /\ CASE x = "s" -> Obs(Call(4, "shut", 0, 0, <<>>, FALSE))
       [] x = "u" -> \E s \in Unsubs : Obs(Call(3, "unsub", s, 0, <<>>, TRUE))
       [] OTHER -> Obs(Call(KOf(x), "disp", 0, EvOf(x), EvTopics[EvOf(x)], FALSE))
  /\ UNCHANGED <<readers, writer, quit, closed, buf, senders, fin, sd, ended, seen>>

\* dispatch: takes the read lock, starts one goroutine per copy, releases the lock
DLock(d) ==
  /\ d \in Disps /\ pc[d] = "lock" /\ (~writer \/ Mistake = "nolock")
  /\ readers' = readers + 1 /\ pc' = [pc EXCEPT ![d] = "send"]
  /\ UNCHANGED <<writer, quit, closed, buf, senders, fin, sd, obs, ended, seen>>
CopiesOf(s, ev) ==
  CASE Mistake = "default" /\ Subs[s] = {} -> IF EvTopics[ev] = <<>> THEN 1 ELSE 0
    [] Mistake = "twice" /\ Subs[s] = {} -> Len(EvTopics[ev])
    [] Mistake = "onetopic" /\ Subs[s] # {} -> IF \E i \in 1..Len(EvTopics[ev]) : EvTopics[ev][i] \in Subs[s] THEN 1 ELSE 0
    [] OTHER -> Cardinality({i \in 1..Len(EvTopics[ev]) : EvTopics[ev][i] \in Subs[s]}) + (IF Subs[s] = {} THEN 1 ELSE 0)
Rep(e, n) == [i \in 1..n |-> e]
DSend(d) ==
  /\ d \in Disps /\ pc[d] = "send"
  /\ senders' = [s \in 1..N |-> IF (sd \/ quit[s]) /\ Mistake \notin {"nolock", "listed"} THEN senders[s] ELSE senders[s] \o Rep(EvOf(d), CopiesOf(s, EvOf(d)))]
  /\ readers' = readers - 1 /\ pc' = [pc EXCEPT ![d] = "ret"]
  /\ UNCHANGED <<writer, quit, closed, buf, fin, sd, obs, ended, seen>>
Ret(x) ==
  /\ pc[x] = "ret" /\ x # "s"
  /\ (Mistake = "sync" /\ x \in Disps) => \A s \in 1..N : \A i \in 1..Len(senders[s]) : senders[s][i] # EvOf(x)
  /\ pc' = [pc EXCEPT ![x] = "end"]
  /\ Obs([op |-> "ret", k |-> KOf(x), res |-> "ok"])
  /\ UNCHANGED <<readers, writer, quit, closed, buf, senders, fin, sd, ended, seen>>

Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
\* a goroutine puts its event into the channel, or gives up because of the quit signal
SenderSend(s, i) ==
  /\ i \in 1..Len(senders[s]) /\ Len(buf[s]) < 1 /\ ~closed[s]
  /\ buf' = [buf EXCEPT ![s] = Append(@, senders[s][i])]
  /\ senders' = [senders EXCEPT ![s] = Drop(@, i)]
  /\ UNCHANGED <<readers, writer, quit, closed, pc, fin, sd, obs, ended, seen>>
SenderQuit(s, i) ==
  /\ i \in 1..Len(senders[s]) /\ quit[s] /\ Mistake # "noquit"
  /\ senders' = [senders EXCEPT ![s] = Drop(@, i)]
  /\ UNCHANGED <<readers, writer, quit, closed, buf, pc, fin, sd, obs, ended, seen>>
Recv(s) ==
  /\ s \notin Stuck /\ buf[s] # <<>>
  /\ buf' = [buf EXCEPT ![s] = Tail(@)]
  /\ Obs([op |-> "recv", s |-> s, ev |-> Head(buf[s])])
  /\ UNCHANGED <<readers, writer, quit, closed, senders, pc, fin, sd, ended, seen>>
SeeClosed(s) ==
  /\ s \notin Stuck /\ buf[s] = <<>> /\ closed[s] /\ ~seen[s]
  /\ seen' = [seen EXCEPT ![s] = TRUE]
  /\ fin' = [fin EXCEPT ![s] = TRUE]
  \* sees the closed channel, then signals that it finished
  /\ obs' = LET a == UNION {BusStep(cfg, x, [op |-> "closed", s |-> s]) : x \in ReachAll(obs, [op |-> "closed"])}
            IN UNION {BusStep(cfg, x, [op |-> "fin", s |-> s]) : x \in a}
  /\ UNCHANGED <<readers, writer, quit, closed, buf, senders, pc, sd, ended>>

\* unsubscribe and shutdown hold the write lock while they close channels
WLock(x) ==
  /\ x \in {"u", "s"} /\ pc[x] = "lock" /\ ~writer /\ readers = 0
  /\ writer' = TRUE
  /\ sd' = (sd \/ x = "s")
  /\ pc' = [pc EXCEPT ![x] = "quit"]
  /\ UNCHANGED <<readers, quit, closed, buf, senders, fin, obs, ended, seen>>
Targets(x) == IF x = "s" THEN 1..N ELSE UNION {{o.p[3].s} : o \in {y \in obs : 3 \in DOMAIN y.p}}
WQuit(x) ==
  /\ x \in {"u", "s"} /\ pc[x] = "quit"
  /\ quit' = [s \in 1..N |-> quit[s] \/ s \in Targets(x)]
  /\ pc' = [pc EXCEPT ![x] = "close"]
  /\ UNCHANGED <<readers, writer, closed, buf, senders, fin, sd, obs, ended, seen>>
WClose(x) == \* after all goroutines of these subscribers have given up
  /\ x \in {"u", "s"} /\ pc[x] = "close"
  /\ Mistake = "nowait" \/ \A s \in Targets(x) : closed[s] \/ senders[s] = <<>>
  /\ closed' = [s \in 1..N |-> closed[s] \/ (s \in Targets(x) /\ Mistake # "open") \/ (Mistake = "other" /\ x = "u")]
  /\ fin' = IF x = "u" THEN [s \in 1..N |-> fin[s] \/ s \in Targets(x)] ELSE fin
  /\ writer' = FALSE
  /\ pc' = [pc EXCEPT ![x] = IF x = "s" THEN "wait" ELSE "ret"]
  /\ UNCHANGED <<readers, quit, buf, senders, sd, obs, ended, seen>>
CtxEnd ==
  /\ ~ended /\ pc["s"] = "wait" /\ ended' = TRUE
  /\ Obs([op |-> "cancel", k |-> 4])
  /\ UNCHANGED <<readers, writer, quit, closed, buf, senders, pc, fin, sd, seen>>
ShutRet ==
  /\ pc["s"] = "wait"
  /\ \/ ((\A s \in 1..N : fin[s]) \/ Mistake = "early") /\ Obs([op |-> "ret", k |-> 4, res |-> "ok"])
     \/ ended /\ Mistake # "forever" /\ Obs([op |-> "ret", k |-> 4, res |-> "timeout"])
  /\ pc' = [pc EXCEPT !["s"] = "end"]
  /\ UNCHANGED <<readers, writer, quit, closed, buf, senders, fin, sd, ended, seen>>

Steps ==
  \/ \E x \in {"d1", "d2", "u", "s"} : Start(x) \/ WLock(x) \/ WQuit(x) \/ WClose(x) \/ Ret(x)
  \/ \E d \in {"d1", "d2"} : DLock(d) \/ DSend(d)
  \/ \E s \in 1..N : (\E i \in 1..3 : SenderSend(s, i) \/ SenderQuit(s, i)) \/ Recv(s) \/ SeeClosed(s)
  \/ CtxEnd \/ ShutRet
\* nothing can happen any more: the observer must agree that nothing is missing
Idle ==
  /\ ~ENABLED Steps
  /\ Obs([op |-> "idle"])
  /\ UNCHANGED <<readers, writer, quit, closed, buf, senders, pc, fin, sd, ended, seen>>
Next == Steps \/ Idle
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Steps)

Allowed == obs # {}                                        \* C20-C23
ChannelsCloseOnce == \A s \in 1..N : closed[s] => senders[s] = <<>>
LockOk == writer => readers = 0
\* C21, C22: operations complete although subscribers are stuck
Completes == \A x \in {"d1", "d2", "u"} : pc[x] = "lock" ~> pc[x] = "end"
ShutReturns == pc["s"] = "lock" ~> (pc["s"] = "wait" \/ pc["s"] = "end")
ShutEnds == ended ~> pc["s"] = "end"
\* C20: whoever stays subscribed and receives gets everything
Delivered == \A s \in (1..N) \ Stuck :
   (pc["d1"] = "end") ~> (senders[s] = <<>> \/ quit[s])
=============================================================================
