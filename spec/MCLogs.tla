------------------------------- MODULE MCLogs -------------------------------
(***************************************************************************)
(* The log processor: one goroutine per stream reads lines, dispatches     *)
(* them and writes them to the sink of the stream; a counter of running    *)
(* goroutines is what Wait waits for, and Wait closes the sinks.  Checked  *)
(* for every subset of the options in both modes.                          *)
(***************************************************************************)
EXTENDS Logs, TLC
CONSTANTS MaxLines, MaxOpts, Faults, Mistake

VARIABLES cfg, pipe, open, pos, stage, wg, sink, evts, errs, wait, ctx, obs
vars == <<cfg, pipe, open, pos, stage, wg, sink, evts, errs, wait, ctx, obs>>
Obs(e) == obs' = UNION {LogsStep(cfg, x, e) : x \in obs}

\* the time is the number of lines sent so far
Clock == Blur * 2 * (Len(pipe["o"]) + Len(pipe["e"]) + Len(pipe["i"]))

AllOpts == {"noStdoutOut", "noStderrOut", "noOutput", "noStdoutIn", "noStderrIn"}
Orders(S) == {q \in UNION {[1..k -> S] : k \in 0..MaxOpts} : \A i, j \in DOMAIN q : i # j => q[i] # q[j]}
All == {"o", "e", "i"}

\* the options are applied in the order of their priority
Prio == <<"noStdoutOut", "noStderrOut", "noOutput", "noStdoutIn", "noStderrIn">>
Sources0(c) == IF c.piped THEN {"i"} ELSE {"o", "e"}
ApplySrc(S, o) == IF o = "noStdoutIn" THEN S \ {"o"} ELSE IF o = "noStderrIn" THEN S \ {"e"} ELSE S
ApplySink(S, o) == IF o = "noOutput" THEN {} ELSE IF o = "noStdoutOut" THEN S \ {"stdout"} ELSE IF o = "noStderrOut" THEN S \ {"stderr"} ELSE S
RECURSIVE Fold(_, _, _, _)
Fold(Op(_, _), S, q, i) == IF i > Len(q) THEN S ELSE Fold(Op, Op(S, q[i]), q, i + 1)
Chosen(c) == SelectSeq(Prio, LAMBDA o : o \in Rng(c.opts))
Srcs(c) == Fold(ApplySrc, Sources0(c), Chosen(c), 1)
Snks(c) == Fold(ApplySink, IF c.piped THEN {"stdout"} ELSE {"stdout", "stderr"}, Chosen(c), 1)
\* pStdout never goes to mStderr and pStderr never to mStdout
Targets(c, x) == CASE x = "o" -> Snks(c) \ {"stderr"} [] x = "e" -> Snks(c) \ {"stdout"} [] OTHER -> Snks(c)

Init ==
  /\ cfg \in [piped : BOOLEAN, opts : Orders(AllOpts), errs : {TRUE}, broken : IF Faults THEN {<<"stdout">>, <<"stderr">>, <<"stdout", "stderr">>} ELSE {<<>>}]
  /\ pipe = [x \in All |-> <<>>] /\ open = [x \in All |-> TRUE]
  /\ pos = [x \in All |-> 0] /\ stage = [x \in All |-> "read"]
  /\ wg = Cardinality(Srcs(cfg))
  /\ sink = [x \in {"stdout", "stderr"} |-> <<>>] /\ evts = {} /\ errs = 0
  /\ wait = "no" /\ ctx = FALSE
  /\ obs = LogsInit(cfg)

Write(x) ==
  /\ x \in Streams(cfg) /\ open[x] /\ Len(pipe[x]) < MaxLines
  /\ pipe' = [pipe EXCEPT ![x] = Append(@, Len(@) + 1)]
  /\ Obs([op |-> "send", s |-> x, n |-> Len(pipe[x]) + 1, at |-> Clock])
  /\ UNCHANGED <<cfg, open, pos, stage, wg, sink, evts, errs, wait, ctx>>
Eof(x) ==
  /\ x \in Streams(cfg) /\ open[x] /\ open' = [open EXCEPT ![x] = FALSE]
  /\ Obs([op |-> "eof", s |-> x])
  /\ UNCHANGED <<cfg, pipe, pos, stage, wg, sink, evts, errs, wait, ctx>>
Emit(x) == \* scan a line and dispatch it
  /\ x \in Srcs(cfg) /\ stage[x] = "read" /\ pos[x] < Len(pipe[x])
  /\ pos' = [pos EXCEPT ![x] = @ + 1] /\ stage' = [stage EXCEPT ![x] = "write"]
  /\ evts' = evts \cup {<<x, pos[x] + 1, IF Mistake = "stamp" THEN 0 ELSE Clock>>}
  /\ UNCHANGED <<cfg, pipe, open, wg, sink, errs, wait, ctx, obs>>
Route(x) ==
  /\ x \in Srcs(cfg) /\ stage[x] = "write" /\ LET bad == Targets(cfg, x) \cap Broken(cfg) IN
     /\ stage' = [stage EXCEPT ![x] = IF Mistake = "stop" /\ bad # {} THEN "end" ELSE "read"]
     /\ wg' = IF Mistake = "stop" /\ bad # {} THEN wg - 1 ELSE wg
     /\ errs' = errs + (IF Mistake = "silent" THEN 0 ELSE Cardinality(bad))
     /\ sink' = IF wait \in {"ok", "error"} THEN sink  \* the sinks are closed
                ELSE [k \in DOMAIN sink |-> IF k \in Targets(cfg, x) \ bad THEN Append(sink[k], <<x, pos[x]>>) ELSE sink[k]]
  /\ UNCHANGED <<cfg, pipe, open, pos, evts, wait, ctx, obs>>
Done(x) ==
  /\ x \in Srcs(cfg) /\ stage[x] = "read" /\ pos[x] = Len(pipe[x]) /\ ~open[x]
  /\ stage' = [stage EXCEPT ![x] = "end"] /\ wg' = wg - 1
  /\ UNCHANGED <<cfg, pipe, open, pos, sink, evts, errs, wait, ctx, obs>>
WaitCall == wait = "no" /\ wait' = "waiting" /\ UNCHANGED <<cfg, pipe, open, pos, stage, wg, sink, evts, errs, ctx, obs>>
Cancel == wait = "waiting" /\ ~ctx /\ ctx' = TRUE /\ Obs([op |-> "cancel"]) /\ UNCHANGED <<cfg, pipe, open, pos, stage, wg, sink, evts, errs, wait>>

\* when Wait returned the observer is shown both sinks and all events
RECURSIVE See(_, _)
See(S, q) == IF q = <<>> THEN S ELSE See(UNION {LogsStep(cfg, x, Head(q)) : x \in S}, Tail(q))
SetSeq(S) == LET RECURSIVE F(_)
                 F(T) == IF T = {} THEN <<>> ELSE LET y == CHOOSE y \in T : TRUE IN <<y>> \o F(T \ {y})
             IN F(S)
WaitRet(r) ==
  /\ wait = "waiting" /\ ((r = "ok" /\ wg = 0) \/ (r = "error" /\ ctx))
  /\ wait' = r
  /\ obs' = See(obs, <<[op |-> "ret", res |-> r]>>
                     \o [i \in 1..Len(sink["stdout"]) |-> [op |-> "out", sink |-> "stdout", s |-> sink["stdout"][i][1], n |-> sink["stdout"][i][2]]]
                     \o [i \in 1..Len(sink["stderr"]) |-> [op |-> "out", sink |-> "stderr", s |-> sink["stderr"][i][1], n |-> sink["stderr"][i][2]]]
                     \o <<[op |-> "snap"]>>
                     \o LET q == SetSeq(evts) IN [i \in 1..Len(q) |-> [op |-> "evt", s |-> q[i][1], n |-> q[i][2], made |-> q[i][3], seen |-> Clock]]
                     \o [i \in 1..errs |-> [op |-> "err", ok |-> TRUE]]
                     \o <<[op |-> "end"]>>)
  /\ UNCHANGED <<cfg, pipe, open, pos, stage, wg, sink, evts, errs, ctx>>
Next ==
  \/ (\E x \in All : Write(x) \/ Eof(x) \/ Emit(x) \/ Route(x) \/ Done(x)) /\ wait \notin {"ok", "error"}
  \/ WaitCall \/ Cancel \/ WaitRet("ok") \/ WaitRet("error")
Spec == Init /\ [][Next]_vars /\ \A x \in All : WF_vars(Emit(x)) /\ WF_vars(Route(x)) /\ WF_vars(Done(x))
             /\ WF_vars(WaitRet("ok"))

Allowed == obs # {}
OptionOrder == Srcs(cfg) = Read(cfg) /\ \A x \in Srcs(cfg) : Targets(cfg, x) = {SinkOf(x)} \cap Sinks(cfg)
WaitEnds == (wait = "waiting" /\ \A x \in Streams(cfg) : ~open[x]) ~> (wait \in {"ok", "error"})
=============================================================================
