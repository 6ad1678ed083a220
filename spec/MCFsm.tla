------------------------------- MODULE MCFsm -------------------------------
(* Exhaustive exploration of Fsm for all transition relations over three   *)
(* states, plain and with nonces; also generates the scripts for the code. *)
EXTENDS Fsm, TLC, TLCExt, Json, FiniteSets, SequencesExt

CONSTANTS S, MaxOps, Gen, EdgeSets, Nonces, Mistake

AllEdgeSets == SUBSET (S \X S)
SomeEdgeSets ==
  { {}, {<<"a","b">>}, {<<"a","a">>, <<"a","b">>}, {<<"a","b">>, <<"b","c">>},
    {<<"a","b">>, <<"b","a">>}, {<<"a","b">>, <<"b","c">>, <<"c","a">>},
    {<<"b","c">>, <<"c","b">>}, {<<"a","b">>, <<"a","c">>, <<"b","b">>} }

VARIABLES cfg, s, used, refusedSince, last, h

vars == <<cfg, s, used, refusedSince, last, h>>

EdgeSeq(E) == SetToSeq(E)

Init ==
  /\ \E E \in EdgeSets, sp \in BOOLEAN, no \in Nonces :
       cfg = [initial |-> "a", edges |-> EdgeSeq(E), stoppable |-> sp, nonce |-> no]
  /\ s \in FsmInit(cfg)
  /\ used = {}
  /\ refusedSince = FALSE
  /\ last = [kind |-> "init"]
  /\ h = <<>>

\* nonce choices: the current one, any older one, or one that never existed (0)
Given == IF cfg.nonce THEN 0..s.n ELSE {0}

DoTr(to, g) ==
  \E r \in Attempt(cfg, s, to, g) :
    /\ s' = CASE Mistake = "moves" /\ r.res # "ok" -> [r.st EXCEPT !.cur = to]
              [] Mistake = "goes" -> [r.st EXCEPT !.stopped = FALSE]
              [] Mistake = "kept" /\ r.res # "ok" -> [r.st EXCEPT !.n = s.n]
              [] Mistake = "same" -> [r.st EXCEPT !.n = s.n]
              [] OTHER -> r.st
    /\ last' = [kind |-> "tr", to |-> to, given |-> g, res |-> r.res, from |-> s.cur,
                wasStopped |-> Stopped(cfg, s)]
    /\ used' = IF cfg.nonce /\ r.res = "ok" THEN used \cup {g} ELSE used
    /\ refusedSince' = (refusedSince \/ r.res # "ok")
    /\ h' = Append(h, [op |-> "tr", to |-> to,
                       given |-> IF g = 0 THEN 0 ELSE IF g = s.n THEN 1 ELSE 2,
                       back |-> s.n - g])

DoReset ==
  /\ s' = CASE Mistake = "stays" -> [ResetOf(cfg, s) EXCEPT !.cur = s.cur] [] Mistake = "stopped" -> [ResetOf(cfg, s) EXCEPT !.stopped = s.stopped]
            [] Mistake = "nonce" -> [ResetOf(cfg, s) EXCEPT !.n = s.n] [] OTHER -> ResetOf(cfg, s)
  /\ last' = [kind |-> "reset"]
  /\ refusedSince' = FALSE
  /\ h' = Append(h, [op |-> "reset", to |-> "", given |-> 0, back |-> 0])
  /\ UNCHANGED used

Next ==
  /\ Len(h) < MaxOps
  /\ (\E to \in S, g \in Given : DoTr(to, g)) \/ DoReset
  /\ UNCHANGED cfg

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* C30 *)
OnlyDeclared ==
  (last.kind = "tr" /\ last.res = "ok") =>
      /\ Declared(cfg, last.from, last.to)
      /\ s.cur = last.to
      /\ ~last.wasStopped
RefusedUnchanged == (last.kind = "tr" /\ last.res # "ok") => s.cur = last.from
StopSticks == (cfg.stoppable /\ refusedSince) => Stopped(cfg, s)
OrdinaryNeverStops == ~cfg.stoppable => ~Stopped(cfg, s)
StoppedRefuses == (last.kind = "tr" /\ last.wasStopped) => last.res \in {"stop", "nonce"}
ResetRestores == last.kind = "reset" => (s.cur = cfg.initial /\ ~Stopped(cfg, s))
\* Reachability in the declared relation
RECURSIVE Reach(_, _)
Reach(E, R) == LET N == R \cup {y \in S : \E x \in R : <<x, y>> \in E}
               IN IF N = R THEN R ELSE Reach(E, N)
EdgesOf == {cfg.edges[i] : i \in 1..Len(cfg.edges)}
OnlyReachable == s.cur \in Reach(EdgesOf, {cfg.initial})
(* C31 *)
NonceFresh == cfg.nonce => s.n \notin used
NonceNeeded == (cfg.nonce /\ last.kind = "tr" /\ last.res = "ok") => last.given = s.n - 1
NonceRenewed == cfg.nonce => s.n = Len(h) + 1
NonceOnce == [][cfg.nonce /\ last'.kind = "tr" /\ last'.res = "ok" => last'.given \notin used]_vars
-----------------------------------------------------------------------------
(* Script generation: a path to every transition of the state graph.       *)
NView == <<cfg, s.cur, s.stopped, s.n, refusedSince, last>>
GenView == IF Gen THEN <<cfg, s.cur, s.stopped, IF cfg.nonce THEN IF s.n > 2 THEN 3 ELSE s.n ELSE 0>> ELSE NView
Emit == Gen => PrintT("SCRIPT " \o ToJson([cfg |-> cfg, ops |-> h']))
=============================================================================
