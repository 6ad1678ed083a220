------------------------------- MODULE MCEvent -------------------------------
(***************************************************************************)
(* The design of events: creating one encodes the object into bytes of its *)
(* own, decoding reads those bytes.  Every event of the design is accepted *)
(* by Event.tla (Conforms).  Mistake selects a wrong design:               *)
(*   shares   the event refers to the object                               *)
(*   buffer   all events are encoded into one buffer                       *)
(*   once     decoding uses the data up                                    *)
(* The histories are also scripts for the code.                            *)
(***************************************************************************)
EXTENDS Event, Json, FiniteSets

CONSTANTS Objs, Evs, Types, Vals, MaxOps, Gen, Mistake

VARIABLES s, ok, heap, mem, last, h
vars == <<s, ok, heap, mem, last, h>>
\* heap: value of the objects; mem: the bytes of the events, used: whether they have been read; last: the shared buffer

Init ==
  /\ s \in EventInit(<<>>)
  /\ ok = TRUE
  /\ heap = [o \in Objs |-> [ty |-> "none", v |-> 0]]
  /\ mem = [e \in Evs |-> [kind |-> "none"]]
  /\ last = [ty |-> "none", v |-> 0]
  /\ h = <<>>

Say(e) ==
  /\ LET n == EventStep(<<>>, s, e) IN
       IF n = {} THEN ok' = FALSE /\ s' = s ELSE ok' = ok /\ s' \in n
  /\ h' = Append(h, e)

Make(o) ==
  \E ty \in Types, v \in Vals :
    /\ heap[o].ty = "none" => TRUE
    /\ heap[o].ty # "none" => ty = heap[o].ty /\ v # heap[o].v
    /\ heap' = [heap EXCEPT ![o] = [ty |-> ty, v |-> v]]
    /\ Say([op |-> IF heap[o].ty = "none" THEN "make" ELSE "change", o |-> o, ty |-> ty, v |-> v])
    /\ UNCHANGED <<mem, last>>

New(e) ==
  /\ mem[e].kind = "none"
  /\ \/ \E o \in Objs :
          /\ heap[o].ty # "none"
          /\ mem' = [mem EXCEPT ![e] = [kind |-> "data", o |-> o, ty |-> heap[o].ty, v |-> heap[o].v, used |-> FALSE]]
          /\ last' = heap[o]
          /\ Say([op |-> "new", e |-> e, o |-> o, how |-> "data", t |-> e, res |-> "ok"])
     \/ /\ mem' = [mem EXCEPT ![e] = [kind |-> "nil"]]
        /\ last' = last
        /\ Say([op |-> "new", e |-> e, how |-> "nil", t |-> e, res |-> "ok"])
  /\ UNCHANGED heap

Copy(e, f) ==
  /\ mem[e].kind = "none" /\ mem[f].kind # "none"
  /\ mem' = [mem EXCEPT ![e] = mem[f]]
  /\ Say([op |-> "copy", e |-> e, f |-> f])
  /\ UNCHANGED <<heap, last>>

Bytes(e) == LET m == mem[e] IN
  CASE Mistake = "shares" -> heap[m.o]
    [] Mistake = "buffer" -> last
    [] OTHER -> [ty |-> m.ty, v |-> m.v]

Dec(e) ==
  /\ mem[e].kind # "none"
  /\ \E ty \in Types :
       LET fits == mem[e].kind = "data" /\ Bytes(e).ty = ty /\ ~(Mistake = "once" /\ mem[e].used) IN
       Say([op |-> "dec", e |-> e, ty |-> ty, res |-> IF fits THEN "ok" ELSE "error", v |-> IF fits THEN Bytes(e).v ELSE 0])
  /\ mem' = IF mem[e].kind = "data" /\ Mistake = "once" THEN [mem EXCEPT ![e].used = TRUE] ELSE mem
  /\ UNCHANGED <<heap, last>>

Next ==
  /\ Len(h) < MaxOps
  /\ ok
  /\ \/ \E o \in Objs : Make(o)
     \/ \E e \in Evs : New(e) \/ Dec(e)
     \/ \E e, f \in Evs : Copy(e, f)

Spec == Init /\ [][Next]_vars

Conforms == ok
\* what is in an event never changes once it was created
Frozen == [][\A e \in DOMAIN s.ev : s'.ev[e] = s.ev[e]]_vars
GenView == IF Gen THEN <<heap, mem, ok>> ELSE <<s, ok, heap, mem, last, Len(h)>>
Emit == Gen => PrintT("SCRIPT " \o ToJson([cfg |-> [x |-> 0], ops |-> h']))
=============================================================================
