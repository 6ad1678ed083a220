------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Conformance of recorded executions of the Go code with a specification. *)
(* A specification supplies                                                *)
(*   TInit(cfg)           the set of its initial states for a configuration*)
(*   TStep(cfg, st, e)    the set of states after the observed event e     *)
(*   TSilent(cfg, st, e)  the set of states after one unobserved step      *)
(*                        while e is the next observed event             *)
(* A batch of recorded traces is read from the file named by the           *)
(* environment variable TRACES; every trace is a record with a             *)
(* configuration cfg and a sequence ev of observed events.  A trace        *)
(* conforms iff some behaviour of the specification explains all of its    *)
(* events.  TLC explores, for every trace, all behaviours that agree with  *)
(* it; register i holds the number of events of trace i that could be      *)
(* explained, and the postcondition reports those that got stuck.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils

CONSTANTS TInit(_), TStep(_, _, _), TSilent(_, _, _)

Traces == JsonDeserialize(IOEnv.TRACES)

ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)

VARIABLES t, l, st

tvars == <<t, l, st>>

TraceInit ==
  /\ t \in 1..Len(Traces)
  /\ l = 1
  /\ st \in TInit(Traces[t].cfg)

TraceNext ==
  \/ /\ l <= Len(Traces[t].ev)
     /\ st' \in TStep(Traces[t].cfg, st, Traces[t].ev[l])
     /\ l' = l + 1
     /\ t' = t
  \/ /\ l <= Len(Traces[t].ev)
     /\ st' \in TSilent(Traces[t].cfg, st, Traces[t].ev[l])
     /\ UNCHANGED <<t, l>>

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* Side effect only: remember how far each trace was explained.  Once a trace is
\* completely explained its remaining alternatives are pruned.
TraceConstraint ==
  /\ (l - 1 > TLCGet(t)) => TLCSet(t, l - 1)
  /\ TLCGet(t) < Len(Traces[t].ev)

NoSilent(cfg, s, e) == {}

TraceReport ==
  \A i \in 1..Len(Traces) :
    \/ TLCGet(i) = Len(Traces[i].ev)
    \/ PrintT("STUCK " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
