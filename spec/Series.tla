------------------------------- MODULE Series -------------------------------
(***************************************************************************)
(* pkg/metric Series (C40).  cfg.cap is the capacity.  The state:          *)
(*   rec    the observations since the last reset, as far as they are still*)
(*          visible (at most cap of them, oldest first)                    *)
(*   count  the number of observations since the last reset                *)
(*   kept   everything Values has returned so far                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

Zeros(n) == [i \in 1..n |-> 0]
LastN(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, Len(q) - n + 1, Len(q))

SeriesEmpty == [rec |-> <<>>, count |-> 0, kept |-> <<>>]

SeriesRecord(cap, s, v) == [s EXCEPT !.rec = LastN(Append(@, v), cap), !.count = @ + 1]
SeriesReset(s) == [s EXCEPT !.rec = <<>>, !.count = 0]
SeriesValues(cap, s) == s.rec \o Zeros(cap - Len(s.rec))

RECURSIVE SeriesRecordAll(_, _, _)
SeriesRecordAll(cap, s, vs) ==
  IF vs = <<>> THEN s ELSE SeriesRecordAll(cap, SeriesRecord(cap, s, Head(vs)), Tail(vs))

\* k times the same value
Times(v, k) == [i \in 1..k |-> v]
SeriesMany(cap, s, v, k) ==
  [s EXCEPT !.rec = LastN(@ \o Times(v, IF k < cap THEN k ELSE cap), cap), !.count = @ + k]

SeriesInit(cfg) == {SeriesEmpty}

\* refused configurations
SeriesBad(cfg) == cfg.cap < 1 \/ (cfg.named /\ cfg.name = "")

SeriesStep(cfg, s, e) ==
  CASE e.op = "new" ->
         IF SeriesBad(cfg) THEN {x \in {s} : e.res = "error"}
         ELSE {x \in {SeriesRecordAll(cfg.cap, s, cfg.init)} : e.res = "ok"}
    [] e.op = "record" -> {SeriesRecord(cfg.cap, s, e.v)}
    [] e.op = "many" -> {SeriesMany(cfg.cap, s, e.v, e.k)}
    [] e.op = "reset" -> {SeriesReset(s)}
    [] e.op = "values" ->
         {x \in {[s EXCEPT !.kept = Append(@, e.res)]} : e.res = SeriesValues(cfg.cap, s)}
    [] e.op = "count" -> {x \in {s} : e.res = s.count}
    [] e.op = "cap" -> {x \in {s} : e.res = cfg.cap}
    [] e.op = "name" -> {x \in {s} : cfg.named => e.res = cfg.name}
    [] e.op = "look" -> {x \in {s} : e.i <= Len(s.kept) /\ e.res = s.kept[e.i]}
    [] OTHER -> {}
=============================================================================
