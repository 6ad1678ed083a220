------------------------------- MODULE Sampled -------------------------------
(***************************************************************************)
(* pkg/metric SampledSeries (C41).  cfg: cap, win (length of the sample    *)
(* window in time units, 0 = direct), tr (name of the transform), init.    *)
(* The state:                                                              *)
(*   now    current time                                                   *)
(*   due    a window has just ended and its value may not be recorded yet  *)
(*   live   FALSE after done was called                                    *)
(*   obs    observations of the current window                             *)
(*   s      the underlying series                                          *)
(* Time never moves while a window end is due (the fake clock of the       *)
(* driver only moves when every goroutine waits).                          *)
(***************************************************************************)
EXTENDS Series, SequencesExt

Sum(q) == FoldLeft(LAMBDA a, v : a + v, 0, q)
MinOf(q) == FoldLeft(LAMBDA a, v : IF v < a THEN v ELSE a, q[1], q)
MaxOf(q) == FoldLeft(LAMBDA a, v : IF v > a THEN v ELSE a, q[1], q)
\* a value that tells apart different windows, orders and multiplicities
Code(q, start) == FoldLeft(LAMBDA a, v : (a * 31 + v + 500) % 1000003, start, q)

Transform(tr, q) ==
  CASE tr = "sum" -> Sum(q)
    [] tr = "avg" -> Sum(q) \div Len(q)    \* inputs are chosen so that this is exact
    [] tr = "min" -> MinOf(q)
    [] tr = "max" -> MaxOf(q)
    [] OTHER -> Code(q, 7)

WindowValue(cfg, q) == IF q = <<>> THEN 0 ELSE Transform(cfg.tr, q)

SampledInit(cfg) == {[now |-> 0, due |-> FALSE, live |-> cfg.win > 0, obs |-> <<>>, s |-> SeriesEmpty]}

Ending(cfg, x) == [x EXCEPT !.s = SeriesRecord(cfg.cap, @, WindowValue(cfg, x.obs)), !.obs = <<>>, !.due = FALSE]

\* the goroutine of the series records the value of a window that has ended
SampledSilent(cfg, x, e) == IF x.due /\ x.live THEN {Ending(cfg, x)} ELSE {}

\* let time pass; every window end but one at the very last instant has been handled
PassOne(cfg, x) ==
  LET y == IF x.due /\ x.live THEN Ending(cfg, x) ELSE x
  IN  [y EXCEPT !.now = @ + 1, !.due = cfg.win > 0 /\ x.live /\ ((x.now + 1) % cfg.win = 0)]
Pass(cfg, x, n) == FoldLeft(LAMBDA a, i : PassOne(cfg, a), x, [i \in 1..n |-> i])

Settled(cfg, x) == IF x.due /\ x.live THEN Ending(cfg, x) ELSE x

SampledBad(cfg) == SeriesBad(cfg)

SampledStep(cfg, x, e) ==
  CASE e.op = "new" ->
         IF SampledBad(cfg) THEN {y \in {x} : e.res = "error"}
         ELSE {y \in {[x EXCEPT !.s = SeriesRecordAll(cfg.cap, @, cfg.init)]} : e.res = "ok"}
    [] e.op = "record" ->
         IF cfg.win = 0 THEN {[x EXCEPT !.s = SeriesRecord(cfg.cap, @, e.v)]}
         ELSE {[x EXCEPT !.obs = Append(@, e.v)]}
    [] e.op = "many" ->
         IF cfg.win = 0 THEN {[x EXCEPT !.s = SeriesMany(cfg.cap, @, e.v, e.k)]}
         ELSE {[x EXCEPT !.obs = @ \o Times(e.v, e.k)]}
    [] e.op = "reset" -> {[x EXCEPT !.obs = <<>>, !.s = SeriesReset(@)]}
    [] e.op = "pass" -> {Pass(cfg, x, e.n)}
    [] e.op = "settle" -> {Settled(cfg, x)}
    [] e.op = "done" -> {[x EXCEPT !.live = FALSE]}
    [] e.op = "values" ->
         {y \in {[x EXCEPT !.s.kept = Append(@, e.res)]} : e.res = SeriesValues(cfg.cap, x.s)}
    [] e.op = "count" -> {y \in {x} : e.res = x.s.count}
    [] e.op = "cap" -> {y \in {x} : e.res = cfg.cap}
    [] e.op = "name" -> {y \in {x} : cfg.named => e.res = cfg.name}
    \* a transform applied directly, the result in thousandths; it does not change its argument
    [] e.op = "agg" ->
         {y \in {x} : /\ e.after = e.q
                      /\ CASE e.q = <<>> -> e.res = 0
                           [] e.tr = "avg" -> LET d == e.res * Len(e.q) - 1000 * Sum(e.q) IN d <= Len(e.q) /\ -d <= Len(e.q)
                           [] OTHER -> e.res = 1000 * Transform(e.tr, e.q)}
    [] e.op = "look" -> {y \in {x} : e.i <= Len(x.s.kept) /\ e.res = x.s.kept[e.i]}
    [] OTHER -> {}
=============================================================================
