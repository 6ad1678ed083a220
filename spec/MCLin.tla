-------------------------------- MODULE MCLin --------------------------------
(***************************************************************************)
(* C43: a counter behind a lock, with the steps of every operation taken   *)
(* one at a time.  An observer keeps the set of sequential states and      *)
(* results that some choice of linearization points explains, exactly as   *)
(* Lin does for recorded histories.                                        *)
(***************************************************************************)
EXTENDS Lin, FiniteSets

CONSTANTS Procs, MaxCalls
MCProcs == {1, 2, 3}
\* Mistake: "unlocked" takes no lock, "early" releases it before it writes
CONSTANT Mistake
cfgc == [obj |-> "counter"]

VARIABLES val, lock, pc, obs, calls, sum, resets
vars == <<val, lock, pc, obs, calls, sum, resets>>

Close(S, e) ==
  LET RECURSIVE C(_)
      C(X) == LET Y == X \cup UNION {LinSilent(cfgc, x, e) : x \in X} IN IF Y = X THEN X ELSE C(Y)
  IN C(S)
After(e) == UNION {LinStep(cfgc, x, e) : x \in Close(obs, e)}

Init ==
  /\ val = 0 /\ lock = 0 /\ calls = 0 /\ sum = 0 /\ resets = 0
  /\ pc = [p \in Procs |-> [at |-> "idle", f |-> "", v |-> 0, tmp |-> 0, k |-> 0]]
  /\ obs = LinInit(cfgc)

Call(p) ==
  /\ pc[p].at = "idle" /\ calls < MaxCalls
  /\ \E f \in {"add", "value", "reset"}, v \in {1, 2} :
       /\ f # "add" => v = 1
       /\ pc' = [pc EXCEPT ![p] = [at |-> "lock", f |-> f, v |-> v, tmp |-> 0, k |-> calls + 1]]
       /\ obs' = After([op |-> "call", k |-> calls + 1, f |-> f, v |-> v])
       /\ resets' = IF f = "reset" THEN resets + 1 ELSE resets
  /\ calls' = calls + 1
  /\ UNCHANGED <<val, lock, sum>>
Acquire(p) ==
  /\ pc[p].at = "lock" /\ (Mistake # "unlocked" => lock = 0)
  /\ lock' = p
  /\ pc' = [pc EXCEPT ![p].at = "read"]
  /\ UNCHANGED <<val, obs, calls, sum, resets>>
Read(p) ==
  /\ pc[p].at = "read"
  /\ pc' = [pc EXCEPT ![p].at = "write", ![p].tmp = val]
  /\ lock' = IF Mistake = "early" THEN 0 ELSE lock
  /\ UNCHANGED <<val, obs, calls, sum, resets>>
Write(p) ==
  /\ pc[p].at = "write"
  /\ val' = CASE pc[p].f = "add" -> pc[p].tmp + pc[p].v [] pc[p].f = "reset" -> 0 [] OTHER -> val
  /\ lock' = 0
  /\ sum' = IF pc[p].f = "add" THEN sum + pc[p].v ELSE sum
  /\ pc' = [pc EXCEPT ![p].at = "ret"]
  /\ UNCHANGED <<obs, calls, resets>>
Return(p) ==
  /\ pc[p].at = "ret"
  /\ obs' = After([op |-> "ret", k |-> pc[p].k, res |-> IF pc[p].f = "value" THEN <<pc[p].tmp>> ELSE <<>>])
  /\ pc' = [pc EXCEPT ![p] = [at |-> "idle", f |-> "", v |-> 0, tmp |-> 0, k |-> 0]]
  /\ UNCHANGED <<val, lock, calls, sum, resets>>

Next == \E p \in Procs : Call(p) \/ Acquire(p) \/ Read(p) \/ Write(p) \/ Return(p)
Spec == Init /\ [][Next]_vars

Linearizable == obs # {}
SumExact == (resets = 0 /\ lock = 0) => val = sum
LView == vars
=============================================================================
