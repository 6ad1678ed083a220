------------------------------ MODULE Windowed ------------------------------
(***************************************************************************)
(* pkg/metric WindowedCounter (C42).  cfg: win (window length in time      *)
(* units, 0 = no window), unset (TRUE: the zero value of the type).        *)
(* The state:                                                              *)
(*   now        current time                                               *)
(*   begun      the current window exists (FALSE only for an unset counter *)
(*              that was not used yet)                                     *)
(*   start, sum the current window                                         *)
(*   hist       closed windows, oldest first, each <<start, win, sum>>     *)
(*   max, maxd  MaxHistory and MaxHistoryDuration (0 = unlimited)          *)
(*   kept       every history returned so far                              *)
(* At the very instant at which a window ends both readings (still open,   *)
(* already elapsed) are possible.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

WLast(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, Len(q) - n + 1, Len(q))

WindowedInit(cfg) ==
  {[now |-> 0, begun |-> ~cfg.unset, start |-> 0, sum |-> 0, hist |-> <<>>,
    max |-> 0, maxd |-> 0, kept |-> <<>>]}

Begin(s) == IF s.begun THEN s ELSE [s EXCEPT !.begun = TRUE, !.start = s.now]

Win(cfg) == IF cfg.unset THEN 0 ELSE cfg.win

\* the set of truth values of "the current window has elapsed"
Elapsed(cfg, s) ==
  IF Win(cfg) = 0 THEN {FALSE}
  ELSE IF s.now > s.start + Win(cfg) THEN {TRUE}
  ELSE IF s.now = s.start + Win(cfg) THEN {TRUE, FALSE}
  ELSE {FALSE}

\* the histories that retention may leave of q at this time
Retain(s, q) ==
  LET young(strict) == IF s.maxd = 0 THEN q
                       ELSE SelectSeq(q, LAMBDA w : IF strict THEN s.now - w[1] < s.maxd
                                                            ELSE s.now - w[1] <= s.maxd)
      cut(r) == IF s.max = 0 THEN r ELSE WLast(r, s.max)
  IN  {cut(young(TRUE)), cut(young(FALSE))}

Entry(cfg, s) == <<s.start, Win(cfg), s.sum>>

WAdd(cfg, s0, v) ==
  LET s == Begin(s0) IN
  UNION { IF el
          THEN { [s EXCEPT !.hist = r, !.start = s.now, !.sum = v]
                   : r \in Retain(s, Append(s.hist, Entry(cfg, s))) }
          ELSE { [s EXCEPT !.sum = @ + v] } : el \in Elapsed(cfg, s) }

WValues(cfg, s0) ==
  LET s == Begin(s0) IN { IF el THEN 0 ELSE s.sum : el \in Elapsed(cfg, s) }

\* a window that never ends is reported as open or as closed
WHistories(cfg, s0, inclusive) ==
  LET s == Begin(s0)
      withcur == Retain(s, Append(s.hist, Entry(cfg, s)))
      without == Retain(s, s.hist)
  IN  IF inclusive THEN withcur
      ELSE UNION { IF el THEN withcur ELSE IF Win(cfg) = 0 THEN withcur \cup without ELSE without
                     : el \in Elapsed(cfg, s) }

WReset(s) == [Begin(s) EXCEPT !.hist = <<>>, !.start = s.now, !.sum = 0]

WindowedStep(cfg, s, e) ==
  CASE e.op = "add" -> WAdd(cfg, s, e.v)
    [] e.op = "value" -> {x \in {Begin(s)} : e.res \in WValues(cfg, s)}
    [] e.op = "hist" -> {x \in {[Begin(s) EXCEPT !.kept = Append(@, e.res)]} : e.res \in WHistories(cfg, s, FALSE)}
    [] e.op = "histi" -> {x \in {[Begin(s) EXCEPT !.kept = Append(@, e.res)]} : e.res \in WHistories(cfg, s, TRUE)}
    [] e.op = "reset" -> {WReset(s)}
    [] e.op = "pass" -> {[s EXCEPT !.now = @ + e.n]}
    [] e.op = "max" -> {[s EXCEPT !.max = e.v]}
    [] e.op = "maxd" -> {[s EXCEPT !.maxd = e.v]}
    [] e.op = "look" -> {x \in {s} : e.i <= Len(s.kept) /\ e.res = s.kept[e.i]}
    [] OTHER -> {}
=============================================================================
