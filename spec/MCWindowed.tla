----------------------------- MODULE MCWindowed -----------------------------
(* Every increment is in exactly one window: a ledger of all increments     *)
(* since the last reset is compared with what the counter reports.          *)
EXTENDS Windowed, TLC, Json, FiniteSets

CONSTANTS Wins, Unsets, MaxOps, MaxTime, Limits, Gen, Mistake

MCLimits == {<<1, 0>>, <<2, 0>>, <<0, 3>>, <<0, 5>>, <<2, 4>>}

VARIABLES cfg, s, ledger, pre, h

vars == <<cfg, s, ledger, pre, h>>

Init ==
  /\ \E w \in Wins, u \in Unsets : cfg = [win |-> w, unset |-> u]
  /\ s \in WindowedInit(cfg)
  /\ ledger = <<>>
  /\ pre = s
  /\ h = <<>>

Log(o) == h' = Append(h, o)

Add(v) ==
  /\ \E y \in WAdd(cfg, s, v) :
       LET rolled == Len(y.hist) > Len(s.hist) IN
       s' = CASE Mistake = "both" /\ rolled -> [y EXCEPT !.hist[Len(y.hist)][3] = @ + v]
              [] Mistake = "old" /\ rolled -> [y EXCEPT !.hist[Len(y.hist)][3] = @ + v, !.sum = 0]
              [] Mistake = "lost" /\ rolled -> [y EXCEPT !.sum = 0]
              [] Mistake = "start" /\ rolled -> [y EXCEPT !.start = Begin(s).start]
              [] Mistake = "order" /\ rolled -> [y EXCEPT !.hist = <<y.hist[Len(y.hist)]>> \o s.hist]
              [] OTHER -> y
  /\ ledger' = Append(ledger, [v |-> v, at |-> s.now])
  /\ Log([op |-> "add", v |-> v])
Reset ==
  /\ s' = IF Mistake = "reset" THEN [WReset(s) EXCEPT !.hist = s.hist] ELSE WReset(s)
  /\ ledger' = <<>>
  /\ Log([op |-> "reset", v |-> 0])
Pass(n) ==
  /\ s.now + n <= MaxTime
  /\ s' = [s EXCEPT !.now = @ + n]
  /\ UNCHANGED ledger
  /\ Log([op |-> "pass", v |-> n])
Limit(l) == \* limits are only ever tightened
  /\ s.max = 0 /\ s.maxd = 0
  /\ s' = [s EXCEPT !.max = l[1], !.maxd = l[2]]
  /\ UNCHANGED ledger
  /\ Log([op |-> "limit", v |-> l[1], d |-> l[2]])

Next ==
  /\ Len(h) < MaxOps
  /\ (\E v \in {1, 2} : Add(v)) \/ Reset \/ (\E n \in {1, 3} : Pass(n)) \/ (\E l \in Limits : Limit(l))
  /\ pre' = s
  /\ UNCHANGED cfg

Spec == Init /\ [][Next]_vars

RECURSIVE Total(_), Within(_, _, _)
Total(q) == IF q = <<>> THEN 0 ELSE Head(q).v + Total(Tail(q))
RECURSIVE Sums(_)
Sums(q) == IF q = <<>> THEN 0 ELSE Head(q)[3] + Sums(Tail(q))
Within(q, a, b) == {i \in 1..Len(q) : q[i].at >= a /\ q[i].at <= b}

Unlimited == s.max = 0 /\ s.maxd = 0
All == LET b == Begin(s) IN Append(b.hist, Entry(cfg, b))
\* C42
NothingLost == Unlimited => Sums(All) = Total(ledger)
Ordered == \A i \in 1..(Len(All) - 1) : All[i][1] + All[i][2] <= All[i + 1][1]
OneCounter == Win(cfg) = 0 => (s.hist = <<>> /\ s.sum = Total(ledger))
\* the sum of a closed window is between the increments strictly inside it and those up to its end
RECURSIVE SumOver(_, _)
SumOver(q, I) == IF I = {} THEN 0 ELSE LET i == CHOOSE i \in I : TRUE IN q[i].v + SumOver(q, I \ {i})
WindowSum(w) ==
  /\ w[3] >= SumOver(ledger, {i \in 1..Len(ledger) : ledger[i].at > w[1] /\ ledger[i].at < w[1] + w[2]})
  /\ w[3] <= SumOver(ledger, {i \in 1..Len(ledger) : ledger[i].at >= w[1] /\ ledger[i].at <= w[1] + w[2]})
RightWindow == Win(cfg) > 0 => \A i \in 1..Len(s.hist) : WindowSum(s.hist[i])
CurrentSum == \A v \in WValues(cfg, s) : v \in {0, s.sum}
Retained ==
  \A r \in WHistories(cfg, s, TRUE) \cup WHistories(cfg, s, FALSE) :
     /\ s.max > 0 => Len(r) <= s.max
     /\ s.maxd > 0 => \A i \in 1..Len(r) : s.now - r[i][1] <= s.maxd
     /\ \A i \in 1..(Len(r) - 1) : r[i][1] < r[i + 1][1]
\* nothing recent is dropped: without limits a history is complete
Complete == Unlimited => \A r \in WHistories(cfg, s, TRUE) : r = All

GenView == IF Gen THEN <<cfg, s.now - s.start, s.now > s.start + cfg.win, IF Len(s.hist) > 2 THEN 2 ELSE Len(s.hist), s.max, s.maxd, s.sum > 0, s.begun>>
           ELSE <<cfg, s, ledger>>
Emit == Gen => PrintT("SCRIPT " \o ToJson([cfg |-> cfg, ops |-> h']))
=============================================================================
