--------------------------------- MODULE Lin ---------------------------------
(***************************************************************************)
(* Linearizability (C24, C43): every operation of a concurrent object      *)
(* takes effect at one instant between its start and its end.  Recorded    *)
(* are the start ("call") and the end ("ret") of every operation; the      *)
(* instant of the effect is a silent step found by TLC.  The sequential    *)
(* objects are those of Queue, Sampled and Windowed.                       *)
(*   cfg.obj   which object, cfg.cap / cfg.win ... its configuration       *)
(*   st.o      state of the sequential object                              *)
(*   st.p      operations in progress: id -> [f, v, done, res]             *)
(* Results are sequences of integers.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Queue, Sampled, Windowed

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))

R(res, o) == [res |-> res, o |-> o]

LinObjInit(cfg) ==
  CASE cfg.obj = "counter" -> {0}
    [] cfg.obj = "queue" -> QueueInit(cfg)
    [] cfg.obj = "windowed" -> WindowedInit(cfg)
    [] cfg.obj = "sampled" -> {[x EXCEPT !.s = SeriesEmpty] : x \in SampledInit(cfg)}

\* the set of [res, o] of applying operation f with argument v
Apply(cfg, o, f, v) ==
  CASE cfg.obj = "counter" ->
         (CASE f = "add" -> {R(<<>>, o + v)}
            [] f = "reset" -> {R(<<>>, 0)}
            [] f = "value" -> {R(<<o>>, o)})
    [] cfg.obj = "queue" ->
         (CASE f = "add" -> {R(<<>>, QueueAdd(cfg, o, v))}
            [] f = "clear" -> {R(<<>>, QueueClear(o))}
            [] f = "copy" -> {R(QueueCopy(o), o)})
    [] cfg.obj = "windowed" ->
         (CASE f = "add" -> {R(<<>>, x) : x \in WAdd(cfg, o, v)}
            [] f = "reset" -> {R(<<>>, WReset(o))}
            [] f = "value" -> {R(<<x>>, o) : x \in WValues(cfg, o)}
            [] f = "hist" -> {R(Flat(x), o) : x \in WHistories(cfg, o, FALSE)}
            [] f = "histi" -> {R(Flat(x), o) : x \in WHistories(cfg, o, TRUE)})
    [] cfg.obj = "sampled" ->
         (CASE f = "add" -> {R(<<>>, x) : x \in SampledStep(cfg, o, [op |-> "record", v |-> v])}
            [] f = "reset" -> {R(<<>>, x) : x \in SampledStep(cfg, o, [op |-> "reset"])}
            [] f = "count" -> {R(<<o.s.count>>, o)}
            [] f = "hist" -> {R(SeriesValues(cfg.cap, o.s), o)})

Timed(cfg, o, n) ==
  CASE cfg.obj = "windowed" -> WindowedStep(cfg, o, [op |-> "pass", n |-> n])
    [] cfg.obj = "sampled" -> SampledStep(cfg, o, [op |-> "pass", n |-> n])
    [] OTHER -> {o}

LinInit(cfg) == {[o |-> x, p |-> [k \in {} |-> 0]] : x \in LinObjInit(cfg)}

Linearize(cfg, s, k) ==
  { [o |-> r.o, p |-> [s.p EXCEPT ![k].done = TRUE, ![k].res = r.res]] : r \in Apply(cfg, s.o, s.p[k].f, s.p[k].v) }

\* effects are only searched for when the operation that is about to end has none yet;
\* every other order of effects can be had by delaying them until then
LinSilent(cfg, s, e) ==
  IF e.op = "ret" /\ ~s.p[e.k].done
  THEN UNION {Linearize(cfg, s, k) : k \in {j \in DOMAIN s.p : ~s.p[j].done}}
       \cup (IF cfg.obj = "sampled" THEN {[s EXCEPT !.o = x] : x \in SampledSilent(cfg, s.o, e)} ELSE {})
  ELSE {}

LinStep(cfg, s, e) ==
  CASE e.op = "call" -> {[s EXCEPT !.p = (e.k :> [f |-> e.f, v |-> e.v, done |-> FALSE, res |-> <<>>]) @@ @]}
    [] e.op = "ret" -> {[x EXCEPT !.p = [j \in DOMAIN x.p \ {e.k} |-> x.p[j]]]
                          : x \in {y \in {s} : s.p[e.k].done /\ s.p[e.k].res = e.res}}
    [] e.op = "race" -> {x \in {s} : e.res = "none"}
    [] e.op = "pass" -> {[s EXCEPT !.o = x] : x \in Timed(cfg, s.o, e.n)}
    [] OTHER -> {}
=============================================================================
