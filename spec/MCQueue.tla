------------------------------- MODULE MCQueue -------------------------------
(* Several goroutines using a queue under its lock: every completed         *)
(* operation is explained, and the queue holds the newest lines.            *)
EXTENDS Queue, TLC, Json, FiniteSets

CONSTANTS Caps, Procs, MaxOps, Gen, Mistake

MCProcs == {1, 2}
MCOneProc == {1}
VARIABLES cap, s, buf, lock, pc, all, h
vars == <<cap, s, buf, lock, pc, all, h>>
cfg == [cap |-> cap]

\* buf is the slice of the implementation, changed in steps while lock is held
Init ==
  /\ cap \in Caps /\ s \in QueueInit([cap |-> cap]) /\ buf = <<>> /\ lock = 0
  /\ pc = [p \in Procs |-> [at |-> "idle", v |-> 0]] /\ all = <<>> /\ h = <<>>

Call(p) ==
  /\ pc[p].at = "idle" /\ Len(h) < MaxOps
  /\ \E f \in {"add", "clear", "copy"} :
       /\ pc' = [pc EXCEPT ![p] = [at |-> f, v |-> Len(h) + 1]]
       /\ h' = Append(h, [op |-> f, v |-> Len(h) + 1])
  /\ UNCHANGED <<cap, s, buf, lock, all>>
Acquire(p) ==
  /\ pc[p].at \in {"add", "clear", "copy"} /\ (lock = 0 \/ Mistake = "nolock")
  /\ lock' = p
  /\ pc' = [pc EXCEPT ![p].at = @ \o "2"]
  /\ UNCHANGED <<cap, s, buf, all, h>>
Pop(p) == \* a full queue drops its head first
  /\ pc[p].at = "add2"
  /\ buf' = IF cap > 0 /\ Len(buf) >= cap + (IF Mistake = "one" THEN 1 ELSE 0) THEN IF Mistake = "newest" THEN SubSeq(buf, 1, Len(buf) - 1) ELSE Tail(buf) ELSE buf
  /\ pc' = [pc EXCEPT ![p].at = "add3"]
  /\ UNCHANGED <<cap, s, lock, all, h>>
Push(p) ==
  /\ pc[p].at = "add3"
  /\ buf' = IF cap > 0 \/ Mistake = "zero" THEN Append(buf, pc[p].v) ELSE buf
  /\ s' = QueueAdd(cfg, s, pc[p].v)
  /\ all' = Append(all, pc[p].v)
  /\ lock' = 0 /\ pc' = [pc EXCEPT ![p].at = "idle"]
  /\ UNCHANGED <<cap, h>>
ClearIt(p) ==
  /\ pc[p].at = "clear2" /\ buf' = (IF Mistake = "clear" /\ buf # <<>> THEN Tail(buf) ELSE <<>>) /\ s' = QueueClear(s) /\ all' = <<>>
  /\ lock' = 0 /\ pc' = [pc EXCEPT ![p].at = "idle"]
  /\ UNCHANGED <<cap, h>>
CopyIt(p) ==
  /\ pc[p].at = "copy2" /\ lock' = 0 /\ pc' = [pc EXCEPT ![p].at = "idle"]
  /\ UNCHANGED <<cap, s, buf, all, h>>

Next == \E p \in Procs : Call(p) \/ Acquire(p) \/ Pop(p) \/ Push(p) \/ ClearIt(p) \/ CopyIt(p)
Spec == Init /\ [][Next]_vars

\* C24
Refines == lock = 0 => buf = QueueCopy(s)
Newest == QueueCopy(s) = QLast(all, cap)
Bounded == Len(buf) <= cap
GenView == IF Gen THEN <<cap, buf # <<>>, Len(buf), pc>> ELSE <<cap, s, buf, lock, pc, all, Len(h)>>
Emit == Gen => (h' # h => PrintT("SCRIPT " \o ToJson([cfg |-> [cap |-> cap], ops |-> h'])))
=============================================================================
