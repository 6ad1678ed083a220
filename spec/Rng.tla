-------------------------------- MODULE Rng --------------------------------
(***************************************************************************)
(* pkg/rng (C54): what a generator may return.  cfg.gens is a sequence of  *)
(* generators,  [kind |-> "p", lam |-> l, den |-> d]  for a Poisson distribution *)
(* of rate l/d and  [kind |-> "ln", m |-> m, s |-> s]  (hundredths) for a log normal one,   *)
(* whose numbers are observed as hundredths of their logarithm.            *)
(*                                                                         *)
(* Per generator the state is the number of draws, the sum of the          *)
(* deviations from the mean, the sum of their squares and the number of    *)
(* draws within one standard deviation.  "end" judges them: with these     *)
(* tolerances (eight standard errors) a right generator is never rejected  *)
(* in practice (less than 1e-14), a wrong parameter always is after some   *)
(* hundred draws.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

RngInit(cfg) == {[i \in 1..Len(cfg.gens) |-> [n |-> 0, sum |-> 0, sq |-> 0, near |-> 0]]}

RAbs(x) == IF x < 0 THEN 0 - x ELSE x
\* twelve standard deviations and more (for the skewed Poisson distribution)
Possible(g, v) ==
  IF g.kind = "p" THEN /\ v >= 0
                       /\ g.lam = 0 => v = 0
                       /\ LET x == v - g.lam \div g.den - 30 IN x > 0 => x * x <= 144 * (g.lam \div g.den + 1)
  ELSE RAbs(v - g.m) <= 9 * g.s + 1

Draw(g, x, v) ==
  LET d == IF g.kind = "p" THEN g.den * v - g.lam ELSE v - g.m
      q == IF g.kind = "p" THEN d * d ELSE IF g.s = 0 THEN 0 ELSE (d * d * 100) \div (g.s * g.s)
  IN [n |-> x.n + 1, sum |-> x.sum + d, sq |-> IF x.sq > 1000000000 THEN x.sq ELSE x.sq + q,
      near |-> x.near + (IF g.kind = "ln" /\ RAbs(d) <= g.s THEN 1 ELSE 0)]

\* x*x <= b
Within(x, b) == x <= 46000 /\ x * x <= b

\* the mean and the variance are right, and for the logarithm also the share of values near the mean (68.3 percent)
Plausible(g, x) ==
  IF g.kind = "p"
  THEN /\ Within(RAbs(x.sum) \div 8, x.n * g.lam * g.den)
       /\ Within(RAbs(x.sq - x.n * g.lam * g.den) \div (8 * g.den), x.n * (2 * g.lam * g.lam + g.lam * g.den))
  ELSE \/ g.s = 0
       \/ /\ Within(RAbs(x.sum) \div g.s, 64 * x.n)
          /\ Within(RAbs(x.sq - 100 * x.n) \div 100, 128 * x.n)
          /\ Within(RAbs(1000 * x.near - 683 * x.n) \div 1000, 15 * x.n + 100)

RngStep(cfg, s, e) ==
  CASE e.op = "draw" ->
         {y \in {[s EXCEPT ![e.g] = Draw(cfg.gens[e.g], @, e.v)]} : e.kind = "number" /\ Possible(cfg.gens[e.g], e.v)}
    [] e.op = "end" -> {y \in {s} : \A i \in DOMAIN s : s[i].n >= 200 => Plausible(cfg.gens[i], s[i])}
    [] OTHER -> {}
=============================================================================
