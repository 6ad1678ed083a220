------------------------------ MODULE MCTicker ------------------------------
(***************************************************************************)
(* The ticker goroutine: a clock channel with one place, an event channel  *)
(* that it must keep draining, and the shutdown of the bus, which waits    *)
(* until the ticker reports that it finished.  MaxDelay is how long the    *)
(* goroutine may be delayed: if it can be delayed by a period or more the  *)
(* clock drops ticks (the invariant then fails, see DESIGN.md).            *)
(***************************************************************************)
EXTENDS Ticker, TLC
CONSTANTS D, MaxNow, Prompt, Mistake

VARIABLES now, clock, inbox, sent, got, phase, obs
vars == <<now, clock, inbox, sent, got, phase, obs>>
cfg == [d |-> <<D>>]
Obs(e) == obs' = UNION {TickerStep(cfg, x, e) : x \in obs}

Init == now = 0 /\ clock = 0 /\ inbox = 0 /\ sent = 0 /\ got = 0 /\ phase = "run" /\ obs = TickerInit(cfg)

\* everything that is due has happened
Quiet == clock = 0 /\ sent = got /\ inbox = 0

Advance ==
  /\ phase = "run" /\ now < MaxNow /\ (Prompt => clock = 0)
  /\ now' = now + 1
  /\ clock' = IF (D > 0 /\ now' % D = 0) \/ (Mistake = "zero" /\ D = 0) THEN IF Mistake = "miss" /\ now' = 2 * D THEN 0 ELSE 1 ELSE clock    \* one place: a tick that is not taken is lost
  /\ Obs([op |-> "adv"])
  /\ UNCHANGED <<inbox, sent, got, phase>>
Fire ==
  /\ phase \in {"run", "closed"} /\ clock = 1
  /\ clock' = 0
  /\ IF phase = "run" THEN sent' = (IF Mistake = "double" THEN sent + 2 ELSE sent + 1) /\ inbox' = inbox + 1 ELSE UNCHANGED <<sent, inbox>>
  /\ UNCHANGED <<now, got, phase, obs>>
Drain == inbox > 0 /\ phase # "finished" /\ inbox' = inbox - 1 /\ UNCHANGED <<now, clock, sent, got, phase, obs>>
Receive == got < sent /\ got' = got + 1 /\ Obs([op |-> "tick", i |-> 1]) /\ UNCHANGED <<now, clock, inbox, sent, phase>>
Idle == phase = "run" /\ Quiet /\ Obs([op |-> "idle"]) /\ UNCHANGED <<now, clock, inbox, sent, got, phase>>
Shutdown == phase = "run" /\ phase' = "closed" /\ sent' = got /\ inbox' = 0 /\ UNCHANGED <<now, clock, got, obs>>
Finish == phase = "closed" /\ Mistake # "silent" /\ phase' = "finished" /\ clock' = 0 /\ UNCHANGED <<now, inbox, sent, got, obs>>
ShutRet == phase = "finished" /\ phase' = "over" /\ Obs([op |-> "shut", res |-> "ok"]) /\ UNCHANGED <<now, clock, inbox, sent, got>>

Next == Advance \/ Fire \/ Drain \/ Receive \/ Idle \/ Shutdown \/ Finish \/ ShutRet
Spec == Init /\ [][Next]_vars /\ WF_vars(Fire) /\ WF_vars(Drain) /\ WF_vars(Receive) /\ WF_vars(Finish) /\ WF_vars(ShutRet)

Allowed == obs # {}
OncePerPeriod == (phase = "run" /\ Quiet) => got = IF D = 0 THEN 0 ELSE now \div D
ShutdownSucceeds == (phase = "closed") ~> (phase = "over")
=============================================================================
