----------------------------- MODULE MCSampled -----------------------------
(* All interleavings of observations, resets, time and the window goroutine *)
(* of a sampled series, with a ledger of when every observation was made.   *)
EXTENDS Sampled, TLC, Json, FiniteSets

CONSTANTS Caps, Wins, MaxOps, Gen, Mistake

VARIABLES cfg, x, ledger, ends, h

vars == <<cfg, x, ledger, ends, h>>

\* ledger: the observations in order, each with the number of window ends
\* handled when it was made; ends: window ends handled since the last reset
Init ==
  /\ \E c \in Caps, w \in Wins : cfg = [cap |-> c, win |-> w, tr |-> "code", init |-> <<>>]
  /\ x \in SampledInit(cfg)
  /\ ledger = <<>>
  /\ ends = 0
  /\ h = <<>>

Log(o) == h' = Append(h, o)
Live == Len(h) < MaxOps

Obs ==
  /\ Live
  /\ LET v == Len(h) + 1 IN
     /\ \E y \in SampledStep(cfg, x, [op |-> "record", v |-> v]) : x' = y
     /\ ledger' = Append(ledger, [v |-> v, w |-> ends])
     /\ Log([op |-> "record", v |-> v])
  /\ UNCHANGED ends

Reset ==
  /\ Live
  /\ \E y \in SampledStep(cfg, x, [op |-> "reset"]) : x' = IF Mistake = "reset" THEN [y EXCEPT !.obs = x.obs] ELSE y
  /\ ledger' = <<>>
  /\ ends' = 0
  /\ Log([op |-> "reset", v |-> 0])

Tick == \* time moves by one unit, only when no window end is pending
  /\ Live
  /\ ~(x.due /\ x.live)
  /\ x' \in SampledStep(cfg, x, [op |-> "pass", n |-> 1])
  /\ Log([op |-> "pass", v |-> 1])
  /\ UNCHANGED <<ledger, ends>>

WindowEnd ==
  /\ LET S == SampledSilent(cfg, x, "") IN
     \E y \in S : x' = CASE Mistake = "keep" -> [y EXCEPT !.obs = x.obs]
                          [] Mistake = "skip" /\ x.obs = <<>> -> [y EXCEPT !.s = x.s]
                          [] Mistake = "last" /\ x.obs # <<>> -> [y EXCEPT !.obs = <<x.obs[Len(x.obs)]>>]
                          [] Mistake = "drop" /\ Len(x.obs) > 1 -> [y EXCEPT !.s = SeriesRecord(cfg.cap, x.s, WindowValue(cfg, Tail(x.obs)))]
                          [] OTHER -> y
  /\ ends' = ends + 1
  /\ UNCHANGED <<ledger, h>>

Done ==
  /\ Live /\ x.live
  /\ \E y \in SampledStep(cfg, x, [op |-> "done"]) : x' = IF Mistake = "live" THEN x ELSE y
  /\ Log([op |-> "done", v |-> 0])
  /\ UNCHANGED <<ledger, ends>>

Next == (Obs \/ Reset \/ Tick \/ WindowEnd \/ Done) /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars

RECURSIVE OfWindow(_, _)
OfWindow(q, w) == IF q = <<>> THEN <<>>
                  ELSE (IF Head(q).w = w THEN <<Head(q).v>> ELSE <<>>) \o OfWindow(Tail(q), w)
\* C41
OnePerWindow == cfg.win > 0 => x.s.count = ends
ExactlyOnce ==
  cfg.win > 0 => \A i \in 1..Len(x.s.rec) :
     x.s.rec[i] = WindowValue(cfg, OfWindow(ledger, ends - Len(x.s.rec) + i - 1))
Direct == cfg.win = 0 => x.s.rec = LastN(OfWindow(ledger, 0), cfg.cap) /\ x.s.count = Len(ledger)
Unused == cfg.win > 0 => x.obs = OfWindow(ledger, ends)
NothingAfterDone == [][~x.live /\ cfg.win > 0 /\ x'.s.count # x.s.count => x'.s.count = 0]_vars

GenView == IF Gen THEN <<cfg, x.now % (IF cfg.win > 0 THEN cfg.win ELSE 1), x.due, x.live, Len(x.obs), x.s.count>> ELSE <<cfg, x, ledger, ends>>
Emit == Gen => (h' # h => PrintT("SCRIPT " \o ToJson([cfg |-> cfg, ops |-> h'])))
=============================================================================
