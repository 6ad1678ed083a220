-------------------------------- MODULE Names --------------------------------
(***************************************************************************)
(* pkg/metric Name (C44).  cfg.keys is a sequence of keys in sorted order. *)
(* The state is the sequence of the names created so far, each             *)
(* [name, md] with md a function from keys to values; the value "" marks   *)
(* an annotation.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

NoMd == [k \in {} |-> ""]

RECURSIVE JoinWords(_)
JoinWords(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o " " \o JoinWords(Tail(q))

\* Values are written as they are, except for those that logfmt has to quote to keep
\* them apart: cfg.enc lists them with their quoted form (JSON strings).
Enc(cfg, v) ==
  IF "enc" \in DOMAIN cfg /\ \E i \in 1..Len(cfg.enc) : cfg.enc[i][1] = v
  THEN LET i == CHOOSE i \in 1..Len(cfg.enc) : cfg.enc[i][1] = v IN cfg.enc[i][2] ELSE v

Render(cfg, n) ==
  LET ks == SelectSeq(cfg.keys, LAMBDA k : k \in DOMAIN n.md /\ n.md[k] # "")
      as == SelectSeq(cfg.keys, LAMBDA k : k \in DOMAIN n.md /\ n.md[k] = "")
      words == [i \in 1..Len(ks) |-> ks[i] \o "=" \o Enc(cfg, n.md[ks[i]])] \o [i \in 1..Len(as) |-> "@" \o as[i]]
  IN  IF words = <<>> THEN n.name ELSE n.name \o "[" \o JoinWords(words) \o "]"

\* pairs: a sequence of <<key, value>>
RECURSIVE Upsert(_, _)
Upsert(md, pairs) ==
  IF pairs = <<>> THEN md ELSE Upsert((pairs[1][1] :> pairs[1][2]) @@ md, Tail(pairs))

NamesInit(cfg) == {<<>>}

NamesStep(cfg, s, e) ==
  CASE e.op = "new" -> {Append(s, [name |-> e.name, md |-> Upsert(NoMd, e.md)])}
    [] e.op = "from" -> IF e.i <= Len(s) THEN {Append(s, s[e.i])} ELSE {}
    [] e.op = "md" -> IF e.res = "ok" THEN {[s EXCEPT ![e.i].md = Upsert(@, e.md)]} ELSE {}
    [] e.op = "string" -> {x \in {s} : e.res = Render(cfg, s[e.i])}
    [] OTHER -> {}
=============================================================================
