------------------------------ MODULE MCSeries ------------------------------
(* The ring buffer of the implementation refines the series of Series.tla. *)
EXTENDS Series, TLC, Json

CONSTANTS Caps, Vals, MaxOps, Gen, Mistake

VARIABLES cap, s, all, ring, cnt, h

vars == <<cap, s, all, ring, cnt, h>>

Next0(n) == n % cap

Init ==
  /\ cap \in Caps
  /\ s = SeriesEmpty
  /\ all = <<>>
  /\ ring = Zeros(cap)
  /\ cnt = 0
  /\ h = <<>>

Record(v) ==
  /\ s' = SeriesRecord(cap, s, v)
  /\ all' = Append(all, v)
  /\ ring' = [ring EXCEPT ![(IF Mistake = "stop" /\ cnt >= cap THEN cap - 1 ELSE cnt % cap) + 1] = v]
  /\ cnt' = cnt + 1
  /\ h' = Append(h, [op |-> "record", v |-> v])

Reset ==
  /\ s' = SeriesReset(s)
  /\ all' = <<>>
  /\ ring' = IF Mistake = "stale" THEN ring ELSE Zeros(cap)
  /\ cnt' = IF Mistake = "count" THEN cnt ELSE 0
  /\ h' = Append(h, [op |-> "reset", v |-> 0])

Next ==
  /\ Len(h) < MaxOps
  /\ (\E v \in Vals : Record(v)) \/ Reset
  /\ UNCHANGED cap

Spec == Init /\ [][Next]_vars

RingValues ==
  IF cnt < cap \/ Mistake = "unrolled" THEN ring
  ELSE LET o == cnt % cap IN SubSeq(ring, o + 1, cap) \o SubSeq(ring, 1, o)

\* C40
RingRefines == RingValues = SeriesValues(cap, s) /\ cnt = s.count
NewestInOrder == SeriesValues(cap, s) =
   IF Len(all) >= cap THEN LastN(all, cap) ELSE all \o Zeros(cap - Len(all))
CountExact == s.count = Len(all)

GenView == IF Gen THEN <<cap, cnt, ring>> ELSE <<cap, s, all, ring, cnt>>
Emit == Gen => PrintT("SCRIPT " \o ToJson([cfg |-> [cap |-> cap], ops |-> h']))
=============================================================================
