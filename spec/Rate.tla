-------------------------------- MODULE Rate --------------------------------
(***************************************************************************)
(* The factor k of the limits for a type I error rate (pkg/stat/k.go, C53).*)
(*                                                                         *)
(* A rate is a/b * 10^e with small a and b, so that its logarithm can be   *)
(* computed here, or one of the values that are refused.  The calibration  *)
(* found log(rate) = A + B k; A, B and all logarithms are in millionths,   *)
(* k in thousandths.                                                       *)
(*                                                                         *)
(* Observed: k (the factor computed for a rate, or that it was refused),   *)
(* fixed (the factor of a fixed k) and limit (the factor by which the      *)
(* limit of a statistic with this rate is away from its baseline).         *)
(* State: the factors seen so far, per distribution.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Ln == <<0, 693147, 1098612, 1386294, 1609438, 1791759, 1945910, 2079442, 2197225>>
Ln10 == 2302585

\* the calibration (kconst_gen.go)
A(dist) == IF dist = "ln" THEN 17633792 ELSE 19195758
B(dist) == IF dist = "ln" THEN -3928860 ELSE -4069410

LogOf(r) == Ln[r.a] - Ln[r.b] + r.e * Ln10

Abs(x) == IF x < 0 THEN -x ELSE x

\* (log - A) / B in thousandths; division of integers rounds down
KOf(dist, log) ==
  LET x == A(dist) - log
      b == -B(dist)
      q == Abs(x) \div b
      m == Abs(x) % b
      k == q * 1000 + (m * 500) \div (b \div 2)
  IN IF x < 0 THEN -k ELSE k

\* what a statistic uses if its rate is refused
Fallback == 5700

Valid(r) == r.kind = "rate"
\* the constants are rounded to seven digits here
Tol(k) == 2 + Abs(k) \div 100000

Less(p, q) == LogOf(p) < LogOf(q) - 20

RateInit(cfg) == {[seen |-> {}]}

RateStep(cfg, s, e) ==
  CASE e.op = "k" ->
         IF ~Valid(e.r) THEN {x \in {s} : e.res = "error"}
         ELSE LET want == KOf(e.dist, LogOf(e.r)) IN
              {x \in {[s EXCEPT !.seen = @ \cup {<<e.dist, e.r, e.k>>}]} :
                 /\ e.res = "ok"
                 /\ Abs(e.k - want) <= Tol(want)
                 \* smaller rates have larger factors
                 /\ \A y \in s.seen : y[1] = e.dist => /\ (Less(y[2], e.r) => y[3] >= e.k)
                                                       /\ (Less(e.r, y[2]) => y[3] <= e.k)
                                                       /\ (y[2] = e.r => y[3] = e.k)}
    [] e.op = "fixed" -> {x \in {s} : e.res = "ok" /\ e.k = e.given}
    [] e.op = "limit" ->
         LET want == IF e.r.kind = "fixed" THEN e.r.k ELSE IF Valid(e.r) THEN KOf(e.dist, LogOf(e.r)) ELSE Fallback
         IN {x \in {s} : Abs(e.k - want) <= Tol(want) + 1}
    [] OTHER -> {}
=============================================================================
