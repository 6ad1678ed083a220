-------------------------------- MODULE Logs --------------------------------
(***************************************************************************)
(* pkg/monny/proc log processor (C25, C27).  A stream is "o" or "e" (stdout and *)
(* stderr of a wrapped process) or "i" (monny's own stdin, if there is     *)
(* none).  Lines are numbered per stream.                                  *)
(*                                                                         *)
(* Observed: send (a line is about to be written completely), eof (a       *)
(* stream is about to end), wait/ret (a call of Wait; its context ends     *)
(* with "cancel"), err (an event on the error topic), out (the next line found in a sink), evt (a log event   *)
(* that was received), part (a sink ends within a line), snap (the sinks   *)
(* were read up to here when Wait returned) and end.                       *)
(*                                                                         *)
(* An event carries the time at which its line was handled.                *)
(*                                                                         *)
(*   n     lines of each stream sent so far                                *)
(*   at    when each of them was about to be sent                          *)
(*   eof   ended streams                                                   *)
(*   out   lines of each stream seen in its sink                           *)
(*   evt   lines of each stream seen as events                             *)
(*   errs  number of error events                                          *)
(*   ctx   the context of Wait ended;  ok: Wait returned nil               *)
(* cfg.broken are sinks that nothing can be written to; cfg.errs: the      *)
(* events on the error topic were recorded.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Streams(cfg) == IF cfg.piped THEN {"i"} ELSE {"o", "e"}
Rng(q) == {q[i] : i \in 1..Len(q)}
\* what the options mean, in whatever order they were passed
Read(cfg) == Streams(cfg) \ ((IF "noStdoutIn" \in Rng(cfg.opts) THEN {"o"} ELSE {}) \cup
                             (IF "noStderrIn" \in Rng(cfg.opts) THEN {"e"} ELSE {}))
SinkOf(x) == IF x = "e" THEN "stderr" ELSE "stdout"
Sinks(cfg) == (IF cfg.piped THEN {"stdout"} ELSE {"stdout", "stderr"})
              \ ((IF {"noStdoutOut", "noOutput"} \cap Rng(cfg.opts) # {} THEN {"stdout"} ELSE {}) \cup
                 (IF {"noStderrOut", "noOutput"} \cap Rng(cfg.opts) # {} THEN {"stderr"} ELSE {}))
Shown(cfg) == {x \in Read(cfg) : SinkOf(x) \in Sinks(cfg)}

Broken(cfg) == Rng(cfg.broken)
RECURSIVE Total(_, _)
Total(s, S) == IF S = {} THEN 0 ELSE LET y == CHOOSE y \in S : TRUE IN s.n[y] + Total(s, S \ {y})
Failing(cfg) == {y \in Shown(cfg) : SinkOf(y) \in Broken(cfg)}

\* clocks are read with this precision
Blur == 2000

LogsInit(cfg) == {[at |-> [x \in Streams(cfg) |-> <<>>], n |-> [x \in Streams(cfg) |-> 0], eof |-> {}, out |-> [x \in Streams(cfg) |-> 0],
                   evt |-> [x \in Streams(cfg) |-> {}], errs |-> 0, ctx |-> FALSE, ok |-> FALSE, waited |-> FALSE]}

LogsStep(cfg, s, e) ==
  CASE e.op = "send" -> IF e.n = s.n[e.s] + 1 /\ e.s \notin s.eof THEN {[s EXCEPT !.n[e.s] = e.n, !.at[e.s] = Append(@, e.at)]} ELSE {}
    [] e.op = "eof" -> {[s EXCEPT !.eof = @ \cup {e.s}]}
    [] e.op = "cancel" -> {[s EXCEPT !.ctx = TRUE]}
    [] e.op = "ret" ->
         IF \/ e.res = "ok" /\ Read(cfg) \subseteq s.eof
            \/ e.res = "error" /\ s.ctx
         THEN {[s EXCEPT !.ok = (e.res = "ok"), !.waited = TRUE]}
         ELSE {}
    [] e.op = "out" -> \* in order per stream, only lines that were written, only in the right sink
         IF /\ e.s \in Shown(cfg) \ Failing(cfg) /\ e.sink = SinkOf(e.s)
            /\ e.n = s.out[e.s] + 1 /\ e.n <= s.n[e.s]
         THEN {[s EXCEPT !.out[e.s] = e.n]} ELSE {}
    [] e.op = "part" -> \* a sink ends within a line: only if Wait gave up while it was being written
         IF e.sink \in Sinks(cfg) \ Broken(cfg) /\ s.waited /\ ~s.ok THEN {s} ELSE {}
    [] e.op = "snap" -> \* everything was in the sinks when Wait returned nil
         {x \in {s} : s.ok => \A y \in Shown(cfg) \ Failing(cfg) : s.out[y] = s.n[y]}
    [] e.op = "evt" ->
         IF e.s \in Read(cfg) /\ e.n \in 1..s.n[e.s] /\ e.n \notin s.evt[e.s]
            \* it was made after the line was sent and before it was received
            /\ s.at[e.s][e.n] <= e.made + Blur /\ e.made <= e.seen + Blur
         THEN {[s EXCEPT !.evt[e.s] = @ \cup {e.n}]} ELSE {}
    [] e.op = "err" -> \* says which kind of failure it is, once for every line that could not be written
         IF e.ok /\ s.errs < Total(s, IF s.ok THEN Failing(cfg) ELSE Shown(cfg)) THEN {[s EXCEPT !.errs = @ + 1]} ELSE {}
    [] e.op = "end" ->
         {x \in {s} : s.ok => /\ \A y \in Read(cfg) : s.evt[y] = 1..s.n[y]
                              /\ (cfg.errs => s.errs = Total(s, Failing(cfg)))}
    [] e.op = "race" -> {x \in {s} : e.res = "none"}
    [] OTHER -> {}
=============================================================================
