------------------------------- MODULE Event -------------------------------
(***************************************************************************)
(* Payloads of events (pkg/eventbus/event.go, C28).                        *)
(*                                                                         *)
(* A source object has a type and a value (values are numbered per type).  *)
(* Observed:                                                               *)
(*   make/change   the program gives object o a value                      *)
(*   new           an event is created from object o (how: by value, by    *)
(*                 pointer, ...), from an error with the text v (how =     *)
(*                 "error"), from nothing ("nil") or from something that   *)
(*                 can not be encoded ("bad")                              *)
(*   copy          event e is a copy of event f                            *)
(*   dec           event e is decoded into a new receiver of type ty: the  *)
(*                 value that came out, or an error                        *)
(*   type          Type and String of event e                              *)
(*                                                                         *)
(*   obj  value of every object: <<type, value>>                           *)
(*   ev   what is in every event: [t, ty, v]; ty is "nil" without data     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

\* types that can not be mistaken for one another have different classes
Class(ty) ==
  CASE ty \in {"int", "duration", "int8"} -> "integer"
    [] ty \in {"string", "named", "error"} -> "text"
    [] ty \in {"record", "inner", "wide"} -> "record"
    [] OTHER -> ty

EventInit(cfg) == {[obj |-> <<>>, ev |-> <<>>]}

DecodeOk(x, e) ==
  CASE x.ty = "nil" -> e.res = "error"
    [] x.ty = "error" /\ e.ty \in {"string", "error"} -> e.res = "ok" /\ e.v = x.v
    [] x.ty = e.ty -> e.res = "ok" /\ e.v = x.v
    [] Class(x.ty) # Class(e.ty) -> e.res = "error"
    [] OTHER -> e.res \in {"ok", "error"}

EventStep(cfg, s, e) ==
  CASE e.op \in {"make", "change"} -> {[s EXCEPT !.obj = (e.o :> <<e.ty, e.v>>) @@ @]}
    [] e.op = "new" ->
         IF e.how = "bad" THEN {x \in {s} : e.res = "error"}
         ELSE {x \in {[s EXCEPT !.ev = (e.e :> CASE e.how = "nil" -> [t |-> e.t, ty |-> "nil", v |-> 0]
                                               [] e.how = "error" -> [t |-> e.t, ty |-> "error", v |-> e.v]
                                               [] OTHER -> [t |-> e.t, ty |-> s.obj[e.o][1], v |-> s.obj[e.o][2]]) @@ @]} : e.res = "ok"}
    [] e.op = "copy" -> {[s EXCEPT !.ev = (e.e :> s.ev[e.f]) @@ @]}
    [] e.op = "dec" -> {x \in {s} : DecodeOk(s.ev[e.e], e)}
    [] e.op = "type" -> {x \in {s} : e.res = s.ev[e.e].t /\ e.str = s.ev[e.e].t}
    [] OTHER -> {}
=============================================================================
