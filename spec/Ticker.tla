------------------------------- MODULE Ticker -------------------------------
(***************************************************************************)
(* pkg/monny/proc ticker (C26).  A configuration is a sequence of tickers, *)
(* each with a period d (in units of time, 0 = none) and an event type     *)
(* (its index).  Time advances unit by unit; "tick" is the reception of an *)
(* event of ticker i by a default subscriber; "idle" is recorded after     *)
(* everything that was due has happened.                                   *)
(*                                                                         *)
(*   now   units since the tickers started                                 *)
(*   got   ticks received per ticker                                       *)
(*   run   the bus was not shut down                                       *)
(*   due   ticks that had been due when the bus was shut down, -1 before   *)
(***************************************************************************)
EXTENDS Integers, Sequences

TickerInit(cfg) == {[now |-> 0, got |-> [i \in 1..Len(cfg.d) |-> 0], run |-> TRUE]}

Due(cfg, s, i) == IF cfg.d[i] = 0 THEN 0 ELSE s.now \div cfg.d[i]

TickerStep(cfg, s, e) ==
  CASE e.op = "adv" -> {[s EXCEPT !.now = IF s.run THEN @ + 1 ELSE @]}
    [] e.op = "tick" -> IF e.i \in DOMAIN s.got /\ s.got[e.i] < Due(cfg, s, e.i) THEN {[s EXCEPT !.got[e.i] = @ + 1]} ELSE {}
    [] e.op = "idle" -> {x \in {s} : s.run => \A i \in DOMAIN s.got : s.got[i] = Due(cfg, s, i)}
    [] e.op = "other" -> {s}      \* some other event passes on the bus
    [] e.op = "topic" -> {}       \* a subscriber of an unrelated topic received something
    [] e.op = "shut" -> {x \in {[s EXCEPT !.run = FALSE]} : e.res = "ok"}
    [] e.op = "left" -> {x \in {s} : e.n = 0}   \* goroutines of the tickers that are left
    [] e.op = "race" -> {x \in {s} : e.res = "none"}
    [] OTHER -> {}
=============================================================================
