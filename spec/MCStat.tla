------------------------------- MODULE MCStat -------------------------------
(* The life cycle of statistics for all short observation sequences and     *)
(* manual transitions, with a ledger of the observations.                   *)
EXTENDS Stat, FiniteSets, Json

CONSTANTS Kinds, Obs, MaxOps, Tos, Gen, Mistake

VARIABLES cfg, ss, since, last, h
vars == <<cfg, ss, since, last, h>>

Exact(kind, k) == [name |-> "s", kind |-> kind, ln |-> 1, ld |-> 1, cap |-> 2, win |-> 0, k |-> k * 1000, exact |-> TRUE, slack |-> 0]

\* since: the valid observations since the series of the first statistic was last restarted
Init ==
  /\ \E kd \in Kinds, k \in {1, 2} : cfg = [stats |-> <<Exact(kd, k)>>, name |-> "n", md |-> <<>>, keys |-> <<"strategy", "type", "value">>]
  /\ ss \in StatInit(cfg)
  /\ since = <<>> /\ last = [op |-> "init", from |-> "", err |-> FALSE, pcur |-> 0, plim |-> 0] /\ h = <<>>

s == ss[1]
c == cfg.stats[1]

Record(o, bad) ==
  LET e == [op |-> "rec", x |-> o * 1000, lx |-> o * 1000, bad |-> bad] IN
  /\ \E y \in ObserveAll(cfg.stats, ss, e) :
       LET t == y[1]
           begins == s.st \in {"ucl_initial", "lcl_initial"} /\ t.st # s.st
       IN ss' = CASE Mistake = "calms" /\ Alarmed(s) /\ o = 0 -> <<[t EXCEPT !.st = "testing_ucl"]>>
                  [] Mistake = "strict" /\ s.st = "testing_ucl" /\ t.st = "ucl_trip" /\ s.b.ok /\ CompareExact(c, s.b, t.cur \div 1000) = 0 -> <<[t EXCEPT !.st = s.st]>>
                  [] Mistake = "moves" /\ s.st = "testing_ucl" -> <<[t EXCEPT !.lim = @ + 1000]>>
                  [] Mistake = "sooner" /\ s.st = "ucl_initial" /\ t.st = s.st -> <<[t EXCEPT !.st = "testing_ucl"]>>
                  [] Mistake = "later" /\ begins /\ t.ser.s.count = c.cap -> <<[t EXCEPT !.st = s.st, !.b = s.b, !.cur = s.cur, !.lim = s.lim]>>
                  [] Mistake = "keeps" /\ begins -> <<[t EXCEPT !.cur = s.cur]>>
                  [] Mistake = "upper" /\ s.st = "lcl_initial" /\ begins -> <<[t EXCEPT !.lim = 2 * MeanOf(SeriesValues(c.cap, t.ser.s)) - t.lim]>>
                  [] Mistake = "tested" /\ s.st = "ucl_trip" -> <<[t EXCEPT !.cur = o * 1000]>>
                  [] OTHER -> y
  /\ since' = IF ~ValidFor(c, bad) THEN since
              ELSE IF s.st = "reset" THEN <<o * 1000>> ELSE Append(since, o * 1000)
  /\ last' = [op |-> "rec", from |-> s.st, err |-> ~ValidFor(c, bad), pcur |-> s.cur, plim |-> s.lim]
  /\ h' = Append(h, [op |-> "rec", v |-> o, bad |-> bad, to |-> "", reset |-> FALSE])
Tr(to, reset) ==
  LET r == StatTransition(c, s, to, reset) IN
  /\ ss' = IF Mistake = "any" \/ (Mistake = "slips" /\ ~r.ok) THEN <<[s EXCEPT !.st = to]>> ELSE <<r.s>>
  /\ since' = IF r.ok /\ reset THEN <<>> ELSE since
  /\ last' = [op |-> "tr", from |-> s.st, err |-> ~r.ok, pcur |-> s.cur, plim |-> s.lim]
  /\ h' = Append(h, [op |-> "tr", v |-> 0, bad |-> "", to |-> to, reset |-> reset])

Next ==
  /\ Len(h) < MaxOps
  /\ \/ \E o \in Obs : Record(o, "")
     \/ Record(0, "nan")
     \/ \E to \in Tos, reset \in BOOLEAN : Tr(to, reset)
  /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars

\* C50
OnlyDocumented == [][s.st # ss'[1].st =>
   \/ MayTransition(s.st, ss'[1].st)]_vars
AlarmLasts == [][Alarmed(s) /\ last'.op = "rec" => ss'[1].st = s.st]_vars
RefusedNothing == [][last'.err => ss' = ss]_vars
AlarmMeansReached ==
  (last.op = "rec" /\ ~last.err /\ last.from = "testing_ucl" /\ s.b.ok) =>
      ((s.st = "ucl_trip") = (CompareExact(c, s.b, s.cur \div 1000) >= 0))
AlarmMeansReachedLow ==
  (last.op = "rec" /\ ~last.err /\ last.from = "testing_lcl" /\ s.b.ok) =>
      ((s.st = "lcl_trip") = (CompareExact(c, s.b, s.cur \div 1000) <= 0))
\* C51
BaselineIsNewest ==
  (last.op = "rec" /\ last.from = "ucl_initial" /\ s.st = "testing_ucl") =>
      LET v == LastN(since, c.cap) IN /\ Len(v) = c.cap /\ s.cur = MeanOf(v)
                                      /\ s.b = Base(c, v, 1)
NotBeforeComplete ==
  (last.op = "rec" /\ last.from = "ucl_initial" /\ s.st # "ucl_initial") => Len(since) >= c.cap
SoonAsComplete ==
  (last.op = "rec" /\ ~last.err /\ last.from = "ucl_initial" /\ s.st = "ucl_initial") =>
      (Len(since) < c.cap \/ ~Varies(Base(c, LastN(since, c.cap), 1)))
NoOtherChange ==
  [][(last'.op = "tr" \/ last'.from \in {"reset", "ucl_trip", "lcl_trip"}) => (ss'[1].cur = s.cur /\ ss'[1].lim = s.lim)]_vars
LimitSteady == [][s.st \in {"testing_ucl", "testing_lcl"} => ss'[1].lim = s.lim]_vars
LimitSide == s.b.ok => (IF s.b.sg = 1 THEN s.lim >= (s.b.mn * 1000) \div s.b.md - 1 ELSE s.lim <= (s.b.mn * 1000) \div s.b.md + 1)

GenView == IF Gen THEN <<cfg, s.st, s.ser.s.count > 1, s.ser.s.rec, s.b.ok, s.cur >= s.lim>> ELSE <<cfg, ss, since, last>>
Emit == Gen => PrintT("SCRIPT " \o ToJson([cfg |-> cfg, ops |-> h']))
=============================================================================
