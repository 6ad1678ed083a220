-------------------------------- MODULE Stat --------------------------------
(***************************************************************************)
(* pkg/stat: test statistics and tests made of them (C50, C51, C52).       *)
(*                                                                         *)
(* cfg.stats is a sequence of statistics                                   *)
(*   name, kind ("p" Poisson, "ln" log normal), ln, ld (lambda = ln/ld),   *)
(*   cap, win (sample window, 0 = none), k (thousandths), exact, slack     *)
(* All values are in thousandths.  exact says that lambda = 1, k is whole  *)
(* and observations are whole, so that "reaches the limit" is decided in   *)
(* exact rational arithmetic; otherwise both answers are possible when the *)
(* current value is within the numeric tolerance of the limit.             *)
(*                                                                         *)
(* State of one statistic:                                                 *)
(*   st        life cycle state                                            *)
(*   cur, lim  current value and limit                                     *)
(*   ser       its series (state of Sampled.tla)                           *)
(*   b         the baseline the limit is based on: mean mn/md, variance    *)
(*             vn/vd (both in whole units) and sg = 1 or -1; ok = FALSE    *)
(*             before the first one                                        *)
(***************************************************************************)
EXTENDS Sampled, Names

StatStates == {"reset", "ucl_initial", "testing_ucl", "ucl_trip", "lcl_initial", "testing_lcl", "lcl_trip"}

MayTransition(a, b) ==
  <<a, b>> \in { <<"reset", "ucl_initial">>, <<"reset", "lcl_initial">>,
                 <<"ucl_initial", "testing_ucl">>, <<"ucl_initial", "reset">>,
                 <<"testing_ucl", "ucl_trip">>, <<"testing_ucl", "reset">>,
                 <<"ucl_trip", "lcl_initial">>, <<"ucl_trip", "reset">>,
                 <<"lcl_initial", "testing_lcl">>, <<"lcl_initial", "reset">>,
                 <<"testing_lcl", "lcl_trip">>, <<"testing_lcl", "reset">>,
                 <<"lcl_trip", "reset">> }

Alarmed(s) == s.st \in {"ucl_trip", "lcl_trip"}

SerCfg(c) == [cap |-> c.cap, win |-> c.win, tr |-> "sum", init |-> <<>>, named |-> FALSE, name |-> ""]

NoBase == [ok |-> FALSE, mn |-> 0, md |-> 1, vn |-> 0, vd |-> 1, sg |-> 1]

StatNew(c) == [st |-> "ucl_initial", cur |-> 0, lim |-> 0, b |-> NoBase,
               ser |-> [now |-> 0, due |-> FALSE, live |-> c.win > 0, obs |-> <<>>, s |-> SeriesEmpty]]

-----------------------------------------------------------------------------
(* Arithmetic *)
Abs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(n, lo, hi) == \* the largest r in lo..hi with r*r <= n, r <= 46340
  IF lo >= hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN ISqrtIn(n, m, hi) ELSE ISqrtIn(n, lo, m - 1)
ISqrt(n) == ISqrtIn(n, 0, 46340)

\* a/b in millionths without large intermediate values
Millionths(a, b) == LET q == (a * 1000) \div b  r == (a * 1000) % b IN q * 1000 + (r * 1000) \div b

\* tolerance for values derived from a limit and for current values
Tol(c) == c.k \div 1000 + 4 + c.ld \div c.ln + c.slack

\* moments of a baseline given in thousandths
Units(q) == [i \in 1..Len(q) |-> q[i] \div 1000]
Squares(q) == [i \in 1..Len(q) |-> q[i] * q[i]]

Base(c, vals, sg) ==
  LET n == Len(vals)
      sum == Sum(vals)
      u == Units(vals)
      su == Sum(u)
      vn == IF c.kind = "p" THEN sum ELSE n * Sum(Squares(u)) - su * su
      vd == IF c.kind = "p" THEN n * 1000 ELSE n * (n - 1)
  IN  [ok |-> TRUE, mn |-> IF c.exact THEN su ELSE sum, md |-> IF c.exact THEN n ELSE n * 1000,
       vn |-> IF c.exact /\ c.kind = "p" THEN su ELSE vn, vd |-> IF c.exact /\ c.kind = "p" THEN n ELSE vd, sg |-> sg]

MeanOf(vals) == Sum(vals) \div Len(vals)

\* square root of lambda/(2-lambda) * variance, in thousandths
Sigma(c, b) ==
  LET fn == c.ln  fd == 2 * c.ld - c.ln
  IN ISqrt(IF c.kind = "p" THEN (((IF c.exact THEN (1000 * b.vn) \div b.vd ELSE b.vn \div (b.vd \div 1000)) * 1000) \div fd) * fn
           ELSE Millionths(b.vn * fn, b.vd * fd))

LimitOf(c, b, mean) == mean + b.sg * ((c.k * Sigma(c, b)) \div 1000)

\* sign of (o - limit) for a whole observation o (units), exactly
CompareExact(c, b, o) ==
  LET k == c.k \div 1000
      a == o * b.md - b.mn
      lhs == a * a * b.vd
      rhs == k * k * b.vn * b.md * b.md
  IN  IF b.sg = 1
      THEN IF a < 0 THEN -1 ELSE IF lhs > rhs THEN 1 ELSE IF lhs = rhs THEN 0 ELSE -1
      ELSE IF a > 0 THEN 1 ELSE IF lhs > rhs THEN -1 ELSE IF lhs = rhs THEN 0 ELSE 1

\* does the current value reach the limit (dir = 1 from below, -1 from above)?
Reaches(c, b, cur, lim, dir) ==
  IF c.exact /\ b.ok /\ cur % 1000 = 0
  THEN {dir * CompareExact(c, b, cur \div 1000) >= 0}
  ELSE IF dir * (cur - lim) > Tol(c) THEN {TRUE}
  ELSE IF dir * (cur - lim) < -Tol(c) THEN {FALSE}
  ELSE {TRUE, FALSE}

-----------------------------------------------------------------------------
(* One valid, transformed observation o *)
SerRecord(c, ser, o) == CHOOSE x \in SampledStep(SerCfg(c), ser, [op |-> "record", v |-> o]) : TRUE
SerReset(c, ser) == CHOOSE x \in SampledStep(SerCfg(c), ser, [op |-> "reset"]) : TRUE

Moved(c, cur, o) == (c.ln * o + (c.ld - c.ln) * cur) \div c.ld

\* baseline completed by the series as it is now
Complete(c, ser) == ser.s.count >= c.cap
Varies(b) == b.vn > 0

StatRecord(c, s, o) ==
  LET ser == SerRecord(c, s.ser, o)
      r == [s EXCEPT !.ser = ser]
      test(dir, trip) ==
        LET cur == Moved(c, s.cur, o)
            m == [r EXCEPT !.cur = cur]
        IN { IF t THEN [m EXCEPT !.st = trip] ELSE m : t \in Reaches(c, s.b, cur, s.lim, dir) }
      base(sg, next) ==
        LET vals == SeriesValues(c.cap, ser.s)
            b == Base(c, vals, sg)
            mean == MeanOf(vals)
        IN { IF Complete(c, ser) /\ Varies(b)
             THEN [r EXCEPT !.st = next, !.b = b, !.cur = mean, !.lim = LimitOf(c, b, mean)]
             ELSE r }
  IN CASE s.st = "reset" -> {[s EXCEPT !.st = "ucl_initial", !.ser = SerRecord(c, SerReset(c, ser), o)]}
       [] s.st = "ucl_initial" -> base(1, "testing_ucl")
       [] s.st = "lcl_initial" -> base(-1, "testing_lcl")
       [] s.st = "testing_ucl" -> test(1, "ucl_trip")
       [] s.st = "testing_lcl" -> test(-1, "lcl_trip")
       [] OTHER -> {r}

\* a manual transition: [ok, s]
StatTransition(c, s, to, resetSeries) ==
  IF MayTransition(s.st, to)
  THEN [ok |-> TRUE, s |-> [s EXCEPT !.st = to, !.ser = IF resetSeries THEN SerReset(c, @) ELSE @]]
  ELSE [ok |-> FALSE, s |-> s]

\* an observation e: e.x the value, e.lx its logarithm (thousandths), e.bad why it may be invalid
ValidFor(c, bad) == bad = "" \/ (c.kind = "p" /\ bad \in {"zero", "neg"})
ObsFor(c, e) == IF c.kind = "p" THEN e.x ELSE e.lx

StatObserve(c, s, e) ==
  IF ValidFor(c, e.bad) THEN StatRecord(c, s, ObsFor(c, e)) ELSE {s}

StatPass(c, s, n) == [s EXCEPT !.ser = Settled(SerCfg(c), Pass(SerCfg(c), @, n))]

-----------------------------------------------------------------------------
(* Tests: a sequence of statistics *)
RECURSIVE ObserveAll(_, _, _)
ObserveAll(cs, ss, e) ==
  IF ss = <<>> THEN {<<>>}
  ELSE { <<h>> \o t : h \in StatObserve(Head(cs), Head(ss), e), t \in ObserveAll(Tail(cs), Tail(ss), e) }

Near(c, a, b) == Abs(a - b) <= Tol(c)

\* what is visible after every operation
Shows(cfg, ss, e) ==
  /\ Len(e.states) = Len(ss) /\ Len(e.values) = Len(ss) /\ Len(e.limits) = Len(ss)
  /\ \A i \in 1..Len(ss) : /\ e.states[i] = ss[i].st
                           /\ Near(cfg.stats[i], e.values[i], ss[i].cur)
                           /\ Near(cfg.stats[i], e.limits[i], ss[i].lim)
  /\ e.alarmed = (\E i \in 1..Len(ss) : Alarmed(ss[i]))

MetricName(cfg, i, which) ==
  Render([keys |-> cfg.keys], [name |-> cfg.name, md |->
    Upsert(Upsert(NoMd, cfg.md), <<<<"strategy", cfg.stats[i].name>>, <<"type", "estimator">>, <<"value", which>>>>)])

MetricOk(cfg, ss, e) ==
  /\ Len(e.metric) = 2 * Len(ss)
  /\ \A i \in 1..Len(ss) :
       /\ \E j \in 1..Len(e.metric) : e.metric[j][1] = MetricName(cfg, i, "current") /\ Near(cfg.stats[i], e.metric[j][2], ss[i].cur)
       /\ \E j \in 1..Len(e.metric) : e.metric[j][1] = MetricName(cfg, i, "limit") /\ Near(cfg.stats[i], e.metric[j][2], ss[i].lim)

StatInit(cfg) == {[i \in 1..Len(cfg.stats) |-> StatNew(cfg.stats[i])]}

TestName(cfg) == Render([keys |-> cfg.keys], [name |-> cfg.name, md |-> Upsert(NoMd, cfg.md)])

StatStep(cfg, ss, e) ==
  CASE e.op = "new" ->
         \* a statistic without room for a baseline, or a test with an option that refuses, is not made
         IF "refuse" \in DOMAIN cfg \/ \E i \in 1..Len(cfg.stats) : cfg.stats[i].cap < 1
         THEN {x \in {ss} : e.res = "refused"}
         ELSE {x \in {ss} : e.res = "ok" /\ Shows(cfg, x, e)}
    [] e.op = "rec" ->
         {x \in ObserveAll(cfg.stats, ss, e) :
            Shows(cfg, x, e) /\ e.err = (\E i \in 1..Len(ss) : ~ValidFor(cfg.stats[i], e.bad))}
    [] e.op = "tr" ->
         LET rs == [i \in 1..Len(ss) |-> StatTransition(cfg.stats[i], ss[i], e.to, e.reset)]
             x == [i \in 1..Len(ss) |-> rs[i].s]
         IN {y \in {x} : Shows(cfg, y, e) /\ e.err = (\E i \in 1..Len(ss) : ~rs[i].ok)}
    [] e.op = "pass" ->
         {y \in {[i \in 1..Len(ss) |-> StatPass(cfg.stats[i], ss[i], e.n)]} : Shows(cfg, y, e)}
    [] e.op = "metric" -> {x \in {ss} : MetricOk(cfg, x, e)}
    [] e.op = "name" -> {x \in {ss} : e.res = TestName(cfg)}
    [] OTHER -> {}
=============================================================================
