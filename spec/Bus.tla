--------------------------------- MODULE Bus ---------------------------------
(***************************************************************************)
(* pkg/eventbus (C20-C23): what users of the bus may observe.              *)
(*                                                                         *)
(* Operations (subscribe, dispatch, unsubscribe, shutdown) are recorded    *)
(* with their start ("call") and end ("ret"); each takes effect at one     *)
(* instant in between (Take).  Subscribers report what they receive, that  *)
(* they found their channel closed, and that they are about to signal that *)
(* they finished.  "idle" is recorded when every goroutine waits.          *)
(*                                                                         *)
(* State:                                                                  *)
(*   sub   subscriber -> [topics, def, on, out, gone, late, closed, fin,   *)
(*                        eager]                                           *)
(*         on      still subscribed (and the bus not shut down)            *)
(*         out     events owed: event -> number of copies not received yet *)
(*         gone    an unsubscribe of it has returned                       *)
(*         late    events received since then                              *)
(*         closed  has seen its channel closed                             *)
(*         fin     has signalled that it finished, or was unsubscribed     *)
(*         eager   is receiving                                            *)
(*   sd    the bus was shut down                                           *)
(*   p     operations in progress                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

BusInit(cfg) == {[sub |-> [s \in {} |-> 0], sd |-> FALSE, p |-> [k \in {} |-> 0]]}

Range(q) == {q[i] : i \in 1..Len(q)}

\* bags of events without zero entries
BagGet(b, e) == IF e \in DOMAIN b THEN b[e] ELSE 0
BagSet(b, e, n) == IF n = 0 THEN [x \in DOMAIN b \ {e} |-> b[x]] ELSE (e :> n) @@ b
NoBag == [x \in {} |-> 0]

\* copies of an event dispatched to topics that subscriber u gets
Copies(u, topics) == Cardinality({i \in 1..Len(topics) : topics[i] \in u.topics}) + (IF u.def THEN 1 ELSE 0)

\* at most this many events can still be received after Unsubscribe returned: one that
\* is in the buffer of the channel and one that the subscriber has received but not reported
MaxLate == 2

\* operation k takes effect
Take(s, k) ==
  LET o == s.p[k]
      t == [s EXCEPT !.p[k].done = TRUE]
  IN
  CASE o.f = "sub" ->
         [t EXCEPT !.sub = (o.s :> [topics |-> Range(o.topics), def |-> o.topics = <<>>, on |-> ~s.sd, out |-> NoBag,
                                    gone |-> FALSE, late |-> 0, closed |-> FALSE, fin |-> FALSE, eager |-> o.eager]) @@ @]
    [] o.f = "disp" ->
         IF s.sd THEN t
         ELSE [t EXCEPT !.sub = [u \in DOMAIN s.sub |->
                 LET x == s.sub[u]  n == Copies(x, o.topics)
                 IN IF x.on /\ n > 0 THEN [x EXCEPT !.out = BagSet(@, o.ev, BagGet(@, o.ev) + n)] ELSE x]]
    [] o.f = "unsub" ->
         IF o.s \in DOMAIN s.sub
         THEN [t EXCEPT !.sub[o.s].on = FALSE, !.sub[o.s].fin = @ \/ o.full]
         ELSE t
    [] o.f = "shut" ->
         [t EXCEPT !.sd = TRUE, !.p[k].wait = DOMAIN s.sub,
                   !.sub = [u \in DOMAIN s.sub |-> [s.sub[u] EXCEPT !.on = FALSE]]]

Pending(s) == {k \in DOMAIN s.p : ~s.p[k].done}

\* effects are searched for just before an event that may depend on one
BusSilent(cfg, s, e) ==
  IF \/ e.op = "ret" /\ ~s.p[e.k].done
     \/ e.op = "ret" /\ s.p[e.k].f = "shut"
     \/ e.op \in {"recv", "closed", "idle"}
  THEN {Take(s, k) : k \in Pending(s)}
  ELSE {}

AllFinished(s, wait) == \A u \in wait : s.sub[u].fin

RetOk(s, e) ==
  LET o == s.p[e.k] IN
  /\ o.done
  /\ CASE o.f = "shut" -> \/ e.res = "ok" /\ AllFinished(s, o.wait)
                          \/ e.res = "timeout" /\ o.ended
       [] o.f = "disp" -> e.res = "ok"
       [] OTHER -> e.res = "ok"

\* when every goroutine waits, nothing that should have happened is missing
IdleOk(s) ==
  /\ \A k \in DOMAIN s.p : s.p[k].f = "shut" /\ s.p[k].done /\ ~s.p[k].ended /\ ~AllFinished(s, s.p[k].wait)
  /\ \A u \in DOMAIN s.sub :
       s.sub[u].eager => IF s.sub[u].on THEN s.sub[u].out = NoBag ELSE s.sub[u].closed

BusStep(cfg, s, e) ==
  CASE e.op = "call" ->
         {[s EXCEPT !.p = (e.k :> [f |-> e.f, s |-> e.s, topics |-> e.topics, ev |-> e.ev, full |-> e.full, eager |-> e.eager,
                                   ended |-> e.ended, done |-> FALSE, wait |-> {}]) @@ @]}
    [] e.op = "ret" ->
         {[x EXCEPT !.p = [j \in DOMAIN x.p \ {e.k} |-> x.p[j]],
                    !.sub = IF s.p[e.k].f = "unsub" /\ s.p[e.k].s \in DOMAIN s.sub
                            THEN [@ EXCEPT ![s.p[e.k].s].gone = TRUE] ELSE @]
            : x \in {y \in {s} : RetOk(y, e)}}
    [] e.op = "cancel" -> \* the context of a shutdown ends
         {IF e.k \in DOMAIN s.p THEN [s EXCEPT !.p[e.k].ended = TRUE] ELSE s}
    [] e.op = "recv" ->
         IF /\ e.s \in DOMAIN s.sub
            /\ ~s.sub[e.s].closed
            /\ BagGet(s.sub[e.s].out, e.ev) > 0
            /\ (~s.sub[e.s].gone \/ s.sub[e.s].late < MaxLate)
         THEN {[s EXCEPT !.sub[e.s].out = BagSet(@, e.ev, BagGet(@, e.ev) - 1),
                         !.sub[e.s].late = IF s.sub[e.s].gone THEN @ + 1 ELSE @]}
         ELSE {}
    [] e.op = "closed" ->
         IF e.s \in DOMAIN s.sub /\ ~s.sub[e.s].on /\ ~s.sub[e.s].closed
         THEN {[s EXCEPT !.sub[e.s].closed = TRUE, !.sub[e.s].out = NoBag]}
         ELSE {}
    [] e.op = "fin" -> IF e.s \in DOMAIN s.sub THEN {[s EXCEPT !.sub[e.s].fin = TRUE]} ELSE {}
    [] e.op = "resume" -> IF e.s \in DOMAIN s.sub THEN {[s EXCEPT !.sub[e.s].eager = TRUE]} ELSE {}
    [] e.op = "idle" -> IF IdleOk(s) THEN {s} ELSE {}
    [] e.op = "race" -> {x \in {s} : e.res = "none"}
    [] OTHER -> {}
=============================================================================
