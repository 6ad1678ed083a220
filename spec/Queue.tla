-------------------------------- MODULE Queue --------------------------------
(* pkg/monny/proc Queue (C24): the newest cfg.cap lines; st.q the queue,    *)
(* st.qkept what Copy returned.                                             *)
EXTENDS Integers, Sequences

QLast(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, Len(q) - n + 1, Len(q))

QueueInit(cfg) == {[q |-> <<>>, qkept |-> <<>>]}
QueueAdd(cfg, s, v) == [s EXCEPT !.q = QLast(Append(@, v), cfg.cap)]
QueueClear(s) == [s EXCEPT !.q = <<>>]
QueueCopy(s) == s.q

QueueStep(cfg, s, e) ==
  CASE e.op = "add" -> {QueueAdd(cfg, s, e.v)}
    [] e.op = "clear" -> {QueueClear(s)}
    [] e.op = "copy" -> {x \in {[s EXCEPT !.qkept = Append(@, e.res)]} : e.res = QueueCopy(s)}
    [] e.op = "look" -> {x \in {s} : e.i <= Len(s.qkept) /\ e.res = s.qkept[e.i]}
    [] OTHER -> {}
=============================================================================
