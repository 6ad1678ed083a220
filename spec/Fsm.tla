-------------------------------- MODULE Fsm --------------------------------
(***************************************************************************)
(* pkg/fsm: a machine with declared transitions, optionally stoppable and  *)
(* optionally protected by a nonce (properties C30, C31).                  *)
(*                                                                         *)
(* A configuration is a record                                             *)
(*   initial, edges (sequence of <<from, to>>), stoppable, nonce           *)
(* The state is a record                                                   *)
(*   cur      current state of the machine                                 *)
(*   stopped  TRUE after a refused transition until the next reset         *)
(*   n        identity of the current nonce; nonces are numbered in the    *)
(*            order of their creation, so a fresh nonce is n + 1           *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Declared(cfg, from, to) ==
  \E i \in 1..Len(cfg.edges) : cfg.edges[i][1] = from /\ cfg.edges[i][2] = to

FsmInit(cfg) == {[cur |-> cfg.initial, stopped |-> FALSE, n |-> 1]}

Stopped(cfg, s) == cfg.stoppable /\ s.stopped

Renew(cfg, s) == IF cfg.nonce THEN s.n + 1 ELSE s.n

\* The possible outcomes [res, st] of attempting a transition to `to` with nonce
\* number `given` (ignored by a plain machine).
Attempt(cfg, s, to, given) ==
  LET refused == [s EXCEPT !.stopped = TRUE, !.n = Renew(cfg, s)]
      bad     == cfg.nonce /\ given # s.n
  IN  (IF Stopped(cfg, s) THEN {[res |-> "stop", st |-> refused]} ELSE {})
      \cup (IF bad THEN {[res |-> "nonce", st |-> refused]} ELSE {})
      \cup (IF ~Stopped(cfg, s) /\ ~bad
            THEN IF Declared(cfg, s.cur, to)
                 THEN {[res |-> "ok",
                        st |-> [s EXCEPT !.cur = to, !.n = Renew(cfg, s)]]}
                 ELSE {[res |-> "notallowed", st |-> refused]}
            ELSE {})

ResetOf(cfg, s) == [cur |-> cfg.initial, stopped |-> FALSE, n |-> Renew(cfg, s)]

-----------------------------------------------------------------------------
(* Observed events: every event carries the state and nonce seen after it. *)
Seen(cfg, s, e) == e.state = s.cur /\ (cfg.nonce => e.n = s.n)

FsmStep(cfg, s, e) ==
  CASE e.op = "tr" ->
         {r.st : r \in {x \in Attempt(cfg, s, e.to, e.given) :
                          x.res = e.res /\ Seen(cfg, x.st, e)}}
    [] e.op = "reset" ->
         {x \in {ResetOf(cfg, s)} : Seen(cfg, x, e) /\ e.res = "ok"}
    [] e.op = "allow" ->
         {x \in {s} : Seen(cfg, x, e)
                      /\ e.res = (IF Declared(cfg, e.from, e.to) THEN "yes" ELSE "no")}
    [] e.op = "new" ->
         \* a configuration that an option refuses makes no machine
         IF "refuse" \in DOMAIN cfg THEN {x \in {s} : e.res = "refused"}
         ELSE {x \in {s} : Seen(cfg, x, e) /\ e.res = "ok"}
    [] OTHER -> {}
=============================================================================
