------------------------------- MODULE MCJson -------------------------------
(***************************************************************************)
(* Small JSON lines and rules: the recursive extraction that the monitor   *)
(* uses agrees with the meaning of a rule in JsonRule, and the meaning has *)
(* the properties stated for it.  Every pair is also printed, as a test.   *)
(***************************************************************************)
EXTENDS JsonRule, TLC, Json, FiniteSets

CONSTANTS Wide, Gen, Mistake

VARIABLES line, rule, done

vars == <<line, rule, done>>

A == 97
B == 98
Str(c) == [t |-> "s", c |-> c]
Num(n, i, f, e) == [t |-> "n", neg |-> n, i |-> i, f |-> f, e |-> e]
Bool(b) == [t |-> "b", v |-> b]
Null == [t |-> "z"]
Arr(e) == [t |-> "a", e |-> e]
Obj(f) == [t |-> "o", f |-> f]
F(k, v) == [k |-> k, v |-> v]

Scalars == {Str(<<>>), Str(<<A>>), Str(<<A, NL, B>>), Num(FALSE, <<1>>, <<>>, 0), Num(TRUE, <<0>>, <<5>>, 0), Num(FALSE, <<1>>, <<2>>, 3), Bool(TRUE), Bool(FALSE), Null}
Few == {Str(<<A>>), Num(FALSE, <<1>>, <<>>, 0), Bool(TRUE), Null}
Keys == {<<A>>, <<B>>, <<>>}
Inner == {Obj(<<>>)} \cup {Obj(<<F(k, v)>>) : k \in Keys, v \in Few}
Arrays == {Arr(<<>>)} \cup {Arr(<<v>>) : v \in Scalars \cup {Obj(<<>>)}} \cup {Arr(<<v, w>>) : v \in Few, w \in Few}
          \cup (IF Wide THEN {Arr(<<u, v, w>>) : u \in Few, v \in Few, w \in Few} ELSE {})
Deep == {Obj(<<F(k, v)>>) : k \in Keys, v \in Inner} \cup {Arr(<<v>>) : v \in Inner}
Values == Scalars \cup Inner \cup Arrays
LinesOf == Scalars \cup Arrays \cup {Obj(<<>>)} \cup {Obj(<<F(k, v)>>) : k \in Keys, v \in Values \cup Deep}
           \cup {Obj(<<F(<<A>>, v), F(<<B>>, w)>>) : v \in Few \cup {Obj(<<F(<<B>>, Str(<<A>>))>>)}, w \in (IF Wide THEN Values ELSE Few)}
           \cup {[t |-> "x"]}

Lit(c) == [r |-> "lit", c |-> c]
Cat(x, y) == [r |-> "cat", x |-> x, y |-> y]
Exprs == {Lit(A), [r |-> "dot"], Cat([r |-> "bot"], [r |-> "eot"]), Cat(Cat([r |-> "bot"], Lit(A)), [r |-> "eot"]),
          Cat(Cat([r |-> "bol"], Lit(B)), [r |-> "eol"]), Cat(Lit(ZERO), [r |-> "eot"]), Cat(Cat(Lit(ZERO + 1), Lit(POINT)), [r |-> "star", x |-> Lit(ZERO)]),
          [r |-> "alt", x |-> Cat(Cat([r |-> "dot"], Lit(NL)), [r |-> "dot"]), y |-> Lit(MINUS)], [r |-> "star", x |-> Lit(A)]}
Paths == {<<<<A>>>>, <<<<B>>>>, <<<<A>>, <<B>>>>, <<<<A>>, <<>>>>, <<<<B>>, <<A>>, <<A>>>>}

Init == /\ line \in LinesOf
        /\ rule \in {[path |-> p, x |-> x] : p \in Paths, x \in Exprs}
        /\ done = FALSE

Next == ~done /\ done' = TRUE /\ UNCHANGED <<line, rule>>

Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
\* the monitor: the empty text when the line or a part of the path is not an object, or the field has no text
RECURSIVE Extract(_, _)
Extract(v, path) ==
  IF v.t \notin {"o", "z"} THEN IF Mistake = "whole" /\ HasText(v) THEN TextOf(v) ELSE <<>>        \* null reads as an object without fields
  ELSE LET w == IF v.t = "z" THEN Nothing ELSE Field(v, path[1])
       IN  IF Len(path) > 1 /\ ~(Mistake = "short" /\ w.t = "s") THEN Extract(w, Tail(path))
           ELSE IF HasText(w) /\ ~(Mistake = "strings" /\ w.t # "s") /\ ~(Mistake = "noarrays" /\ w.t = "a") THEN TextOf(w)
           ELSE IF Mistake = "null" /\ w.t = "z" THEN <<110, 117, 108, 108>> ELSE <<>>

Agrees == LET m == Matches(rule.x, Extract(line, rule.path))
              v == Verdict(rule, line)
          IN  v = "any" \/ (m <=> v = "yes")

\* adding other fields does not change whether a rule matches
OnlyTheField == line.t = "o" /\ Len(line.f) = 2 =>
  \A j \in 1..2 : line.f[j].k = rule.path[1] => Verdict(rule, line) = Verdict(rule, Obj(<<line.f[j]>>))

NeverElsewhere == line.t # "o" /\ NeedsText(rule.x) => Verdict(rule, line) = "no"

--------------------------------------------------------------------------------
(* numbers: the text reads back as the rounded value *)
RECURSIVE Val(_), Pow(_)
Val(d) == IF d = <<>> THEN 0 ELSE 10 * Val(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)]
Pow(n) == IF n = 0 THEN 1 ELSE 10 * Pow(n - 1)
Numbers == {Num(FALSE, i, f, e) : i \in {<<0>>, <<7>>, <<1, 9>>}, f \in {<<>>, <<0>>, <<5>>, <<0, 1>>, <<9, 9, 9>>, <<9, 9, 9, 9, 9>>}, e \in -7..2}
Unscaled(v) == Val(v.i \o v.f)
Scale(v) == Len(v.f) - v.e
Millionths(v) == LET s == 6 - Scale(v) IN IF s >= 0 THEN Unscaled(v) * Pow(s) ELSE (Unscaled(v) + Pow(-s) \div 2) \div Pow(-s)
ReadBack(t) == LET d == SelectSeq(t, LAMBDA c : c # POINT) IN Val([k \in 1..Len(d) |-> d[k] - ZERO])
ASSUME \A v \in Numbers :
         LET t == NumberText(v)
         IN  /\ Unscaled(v) * 1000 < 2147483 => ReadBack(t) = Millionths(v)
             /\ t[Len(t) - 6] = POINT
             /\ \A k \in 1..Len(t) : k # Len(t) - 6 => t[k] \in ZERO..(ZERO + 9)
             /\ t[1] = ZERO => t[2] = POINT

--------------------------------------------------------------------------------
Emit == Gen => PrintT("PAIR " \o ToJson([line |-> line, rule |-> rule]))
=============================================================================
