------------------------------- MODULE Launch -------------------------------
(***************************************************************************)
(* How monny starts the command (C17).  cfg is empty.  Observed events:    *)
(*   given  the words that follow monny's own options, and the context (a  *)
(*          record: environment, directory, user, limits, ...) that a      *)
(*          process has that is started in the place of monny              *)
(*   run    the command began: its words, its context, and whether it is   *)
(*          in monny's process group                                       *)
(*   end    monny ended                                                    *)
(* The command is run once, with the words given, in the context given.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences

\* the separator between monny's options and the command is not a part of it
Words(line) == IF line # <<>> /\ Head(line) = "--" THEN Tail(line) ELSE line

LaunchInit == {[at |-> "new", words |-> <<>>, ctx |-> <<>>]}

LaunchStep(s, e) ==
  CASE e.op = "given" -> {x \in {[at |-> "given", words |-> Words(e.line), ctx |-> e.ctx]} : s.at = "new"}
    [] e.op = "run" -> {x \in {[s EXCEPT !.at = "run"]} : s.at = "given" /\ e.words = s.words /\ e.ctx = s.ctx /\ e.group}
    [] e.op = "end" -> {x \in {[s EXCEPT !.at = "end"]} : s.at = "run"}
    [] OTHER -> {}
=============================================================================
