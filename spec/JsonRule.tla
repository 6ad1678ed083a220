-------------------------------- MODULE JsonRule --------------------------------
(***************************************************************************)
(* JSON rules of the monitor (property C10): the text of a named field of  *)
(* a line and whether an expression matches it.                            *)
(*                                                                         *)
(* A text is a sequence of code points.  A JSON value is a record          *)
(*   [t |-> "s", c |-> text]            string                             *)
(*   [t |-> "n", neg, i, f, e]          number: digits before and after    *)
(*                                      the point, decimal exponent        *)
(*   [t |-> "b", v |-> BOOLEAN]         boolean                            *)
(*   [t |-> "z"]                        null                               *)
(*   [t |-> "a", e |-> seq of values]   array                              *)
(*   [t |-> "o", f |-> seq of [k |-> text, v |-> value]]  object           *)
(* A line is such a value, or [t |-> "x"] when it is not JSON, or          *)
(* [t |-> "?"] when nothing is said about it.                              *)
(*                                                                         *)
(* A regular expression is a record                                        *)
(*   [r |-> "lit", c], [r |-> "dot"], [r |-> "cls", s] (one of a set),     *)
(*   [r |-> "cat", x, y], [r |-> "alt", x, y], [r |-> "star", x],          *)
(*   [r |-> "bot"], [r |-> "eot"] (of the text), [r |-> "bol"],            *)
(*   [r |-> "eol"] (of a line of the text), [r |-> "eps"]                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

NL == 10
MINUS == 45
POINT == 46
ZERO == 48

--------------------------------------------------------------------------------
(* regular expressions: the positions at which a match that starts at i can end *)
RECURSIVE Ends(_, _, _), Closure(_, _, _)
Ends(r, s, i) ==
  CASE r.r = "eps" -> {i}
    [] r.r = "lit" -> IF i <= Len(s) /\ s[i] = r.c THEN {i + 1} ELSE {}
    [] r.r = "dot" -> IF i <= Len(s) /\ s[i] # NL THEN {i + 1} ELSE {}
    [] r.r = "cls" -> IF i <= Len(s) /\ (\E k \in 1..Len(r.s) : r.s[k] = s[i]) THEN {i + 1} ELSE {}
    [] r.r = "cat" -> UNION {Ends(r.y, s, j) : j \in Ends(r.x, s, i)}
    [] r.r = "alt" -> Ends(r.x, s, i) \cup Ends(r.y, s, i)
    [] r.r = "star" -> Closure(r.x, s, {i})
    [] r.r = "bot" -> IF i = 1 THEN {i} ELSE {}
    [] r.r = "eot" -> IF i = Len(s) + 1 THEN {i} ELSE {}
    [] r.r = "bol" -> IF i = 1 \/ s[i - 1] = NL THEN {i} ELSE {}
    [] r.r = "eol" -> IF i = Len(s) + 1 \/ s[i] = NL THEN {i} ELSE {}
Closure(x, s, J) ==
  LET K == J \cup UNION {Ends(x, s, j) : j \in J}
  IN  IF K = J THEN J ELSE Closure(x, s, K)

Matches(r, s) == \E i \in 1..(Len(s) + 1) : Ends(r, s, i) # {}

\* an expression that the empty text matches may match lines without the field
NeedsText(r) == ~Matches(r, <<>>)

--------------------------------------------------------------------------------
(* numbers: decimal notation with six decimals, rounded half up *)
RECURSIVE Strip(_), Zeros(_), Inc(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = 0 THEN Strip(Tail(d)) ELSE d
Zeros(n) == IF n <= 0 THEN <<>> ELSE Append(Zeros(n - 1), 0)
\* add one to the digits
Inc(d) == IF d = <<>> THEN <<1>>
          ELSE IF d[Len(d)] < 9 THEN [d EXCEPT ![Len(d)] = @ + 1]
          ELSE Append(Inc(SubSeq(d, 1, Len(d) - 1)), 0)
Digits(d) == [k \in 1..Len(d) |-> ZERO + d[k]]
NumberText(v) ==
  LET all  == v.i \o v.f
      pos  == Len(v.i) + v.e                             \* digits before the point
      lpad == IF pos < 1 THEN Zeros(1 - pos) \o all ELSE all
      p    == IF pos < 1 THEN 1 ELSE pos
      pad  == lpad \o Zeros(p + 7 - Len(lpad))           \* at least 7 decimals
      cut  == SubSeq(pad, 1, p + 6)
      r    == IF pad[p + 7] >= 5 THEN Inc(cut) ELSE cut
      q    == Len(r) - 6
  IN  (IF v.neg THEN <<MINUS>> ELSE <<>>) \o Digits(Strip(SubSeq(r, 1, q))) \o <<POINT>> \o Digits(SubSeq(r, q + 1, q + 6))

--------------------------------------------------------------------------------
True == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>

Scalar(v) == v.t \in {"s", "n", "b"}
ScalarText(v) == CASE v.t = "s" -> v.c
                   [] v.t = "n" -> NumberText(v)
                   [] v.t = "b" -> IF v.v THEN True ELSE False

\* elements one per line, in order
RECURSIVE Lines(_)
Lines(es) ==
  IF es = <<>> THEN <<>>
  ELSE IF ~Scalar(es[1]) THEN Lines(Tail(es))
  ELSE LET rest == SelectSeq(Tail(es), Scalar)
       IN  ScalarText(es[1]) \o (IF rest = <<>> THEN <<>> ELSE <<NL>> \o Lines(rest))

\* a field of an object; keys are unique
RECURSIVE Lookup(_, _)
Nothing == [t |-> "none"]
Field(o, k) == IF \E j \in 1..Len(o.f) : o.f[j].k = k
               THEN o.f[CHOOSE j \in 1..Len(o.f) : o.f[j].k = k].v
               ELSE Nothing
Lookup(v, path) ==
  IF path = <<>> THEN v
  ELSE IF v.t # "o" THEN Nothing
  ELSE Lookup(Field(v, path[1]), Tail(path))

HasText(v) == Scalar(v) \/ v.t = "a"
TextOf(v) == IF v.t = "a" THEN Lines(v.e) ELSE ScalarText(v)

\* whether a rule matches a line: "yes", "no" or "any"
Verdict(rule, line) ==
  IF line.t = "?" THEN "any"
  ELSE LET v == Lookup(line, rule.path)
       IN  IF HasText(v) /\ (IF v.t = "a" THEN \A k \in 1..Len(v.e) : v.e[k].t # "?" ELSE TRUE)
           THEN IF Matches(rule.x, TextOf(v)) THEN "yes" ELSE "no"
           ELSE IF v.t \in {"a", "?"} THEN "any"
           ELSE IF NeedsText(rule.x) THEN "no" ELSE "any"

Count(rules, line, w) == Len(SelectSeq(rules, LAMBDA r : Verdict(r, line) = w))

--------------------------------------------------------------------------------
(* Observed events: "line" with the number of matches that name the line,   *)
(* and "end" when the command has finished.                                 *)
JsonInit(cfg) == {[i |-> 0]}
JsonStep(cfg, s, e) ==
  CASE e.op = "line" ->
         LET line == cfg.lines[e.i]
             yes  == Count(cfg.rules, line, "yes")
             any  == Count(cfg.rules, line, "any")
         IN  IF e.i = s.i + 1 /\ yes <= e.n /\ e.n <= yes + any THEN {[i |-> e.i]} ELSE {}
    [] e.op = "end" ->
         \* all lines were forwarded, in order, and the matches are in the order of the lines
         IF e.res = "ok" /\ e.forwarded /\ e.ordered /\ s.i = Len(cfg.lines) THEN {s} ELSE {}
    [] OTHER -> {}
=============================================================================
