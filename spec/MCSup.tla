------------------------------- MODULE MCSup -------------------------------
(***************************************************************************)
(* Design of the supervisor: the goroutines of monny (two scanners, the    *)
(* waiter, the main select loop, one sender per report), the command, the  *)
(* collector and the clock, with the observer Sup attached.  The clock     *)
(* only advances when monny has nothing left to do.                        *)
(*                                                                         *)
(* Variants select small configurations; Broken plants one of the design   *)
(* mistakes that the observer has to notice (used to test the model).      *)
(***************************************************************************)
EXTENDS Sup

CONSTANTS Asp, Variant, Large, MaxT, MaxFail, Broken

VARIABLES cfg, clk, obs, bad, ch, pipe, scan, main, cmd, snd, col

vars == <<cfg, clk, obs, bad, ch, pipe, scan, main, cmd, snd, col>>

Streams == {"o", "e"}
AllAspects == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C14", "C15", "C16"}
Base == [asp |-> <<Asp>>,
         ho |-> 1, he |-> 1, rules |-> 1, qty |-> 0, per |-> 0, nos |-> FALSE, nof |-> FALSE, tw |-> 0, tk |-> 0, mw |-> 0, mk |-> 0,
         files |-> <<>>, base |-> <<>>, full |-> <<>>, noerr |-> TRUE, lose |-> FALSE, calm |-> FALSE, nostart |-> "", speed |-> 1, sec |-> 1, slack |-> 1, jit |-> 0, memper |-> 1, catch |-> FALSE,
         no |-> 0, ne |-> 0, sigs |-> 0, mems |-> {}, codes |-> {0}]

\* every variant has a small and a large form
Configs ==
  CASE Variant = "output" -> {[Base EXCEPT !.ho = h, !.no = IF Large THEN 3 ELSE 2, !.ne = IF Large THEN 2 ELSE 1, !.rules = 0] : h \in 0..2}
    [] Variant = "alerts" -> {[Base EXCEPT !.no = 2, !.ne = 0, !.nos = ~Large]}
    [] Variant = "alerts2" -> {[Base EXCEPT !.no = IF Large THEN 2 ELSE 1, !.ne = 1, !.nos = TRUE]}
    [] Variant = "rate" -> {[Base EXCEPT !.no = IF Large THEN 3 ELSE 2, !.qty = 2, !.per = p, !.nos = TRUE] : p \in {0, 1}}
    [] Variant = "verdict" -> {[Base EXCEPT !.no = IF Large THEN 1 ELSE 0, !.codes = {0, 3, -9}, !.nos = a, !.nof = b, !.files = f, !.base = f] :
                                 a, b \in BOOLEAN, f \in IF Large THEN {<<>>, <<"x">>, <<"x", "y">>} ELSE {<<>>, <<"x">>}}
    [] Variant = "files" -> {[Base EXCEPT !.files = <<"x", "y">>, !.base = <<"x", "y">>]}
    [] Variant = "alertfile" -> {[Base EXCEPT !.no = IF Large THEN 2 ELSE 1, !.files = <<"x">>, !.base = <<"x">>]}
    [] Variant = "limits" -> {[Base EXCEPT !.no = IF Large THEN 1 ELSE 0, !.rules = 0, !.tw = w, !.tk = k, !.codes = {0, 3}] : w \in {0, 1}, k \in {0, 1, 2}}
    [] Variant = "memory" -> {[Base EXCEPT !.mw = w, !.mk = k, !.mems = {1, 2}, !.tk = IF Large THEN 2 ELSE 0] : w \in {0, 1}, k \in {0, 2}}
    [] Variant = "signals" -> {[Base EXCEPT !.no = IF Large THEN 1 ELSE 0, !.rules = 0, !.sigs = 2, !.catch = c, !.tk = k, !.codes = {0, 3}] : c \in BOOLEAN, k \in {0, 2}}
    [] Variant = "sigout" -> {[Base EXCEPT !.no = 2, !.rules = 0, !.sigs = 1, !.catch = c] : c \in BOOLEAN}
    [] Variant = "live" -> {[Base EXCEPT !.no = IF Large THEN 1 ELSE 0, !.tk = k, !.sigs = 1, !.catch = c, !.files = f, !.base = f] :
                              k \in {0, 1}, c \in BOOLEAN, f \in {<<>>, <<"x">>}}

Me == [id |-> "id", host |-> "host", cmd |-> "cmd", conf |-> "conf"]

Init ==
  /\ \E c \in Configs, quiet \in (IF Asp = "C16" THEN BOOLEAN ELSE {TRUE}) : cfg = [c EXCEPT !.noerr = quiet]
  /\ clk = 0
  /\ \E s \in SupInit(cfg) : obs = [s EXCEPT !.hello = [t |-> 0, u |-> 0], !.me = [t |-> 0] @@ Me]
  /\ bad = ""
  /\ ch = [up |-> TRUE, how |-> "", code |-> 0, n |-> [o |-> 0, e |-> 0], mem |-> 0, pend |-> <<>>, made |-> {}]
  /\ pipe = [o |-> <<>>, e |-> <<>>]
  /\ scan = [st \in Streams |-> [pc |-> "read", l |-> <<0, FALSE>>]]
  /\ main = [pc |-> "loop", sigd |-> FALSE, chan |-> <<>>, runfin |-> FALSE, fin |-> FALSE, tw |-> FALSE, tk |-> FALSE, look |-> FALSE, sent |-> 0, file |-> 1]
  /\ cmd = [matches |-> <<>>, delivered |-> 0, hist |-> [o |-> <<>>, e |-> <<>>], success |-> FALSE, code |-> 0, valid |-> FALSE,
            killed |-> FALSE, kr |-> 0, missing |-> <<>>, created |-> <<>>, finish |-> -1, waiting |-> FALSE, tws |-> FALSE, mws |-> FALSE, maxmem |-> 0]
  /\ snd = <<>>
  /\ col = [fails |-> 0, q |-> 0, contents |-> <<>>]

--------------------------------------------------------------------------------
(* the observer *)
RECURSIVE Observe(_, _)
Observe(s, es) ==
  IF es = <<>> THEN [s |-> s, bad |-> ""]
  ELSE LET e == [t |-> clk, u |-> clk] @@ Head(es)
           n == Update(cfg, s, e)
           wrong == {a \in (IF Asp = "all" THEN AllAspects ELSE {Asp}) : ~Always(a, cfg, s, e, n)}
       IN IF wrong # {} THEN [s |-> s, bad |-> ToString(<<wrong, e>>)] ELSE Observe(n, Tail(es))
See(es) == LET r == Observe(obs, es) IN obs' = r.s /\ bad' = r.bad
Blind == UNCHANGED <<obs, bad>>

--------------------------------------------------------------------------------
(* the command *)
Line(st, m) ==
  /\ ch.up /\ ch.n[st] < (IF st = "o" THEN cfg.no ELSE cfg.ne)
  /\ ch' = [ch EXCEPT !.n[st] = @ + 1]
  /\ pipe' = [pipe EXCEPT ![st] = Append(@, <<ch.n[st] + 1, m>>)]
  /\ See(<<[op |-> "line", st |-> st, n |-> ch.n[st] + 1, m |-> IF m THEN <<1>> ELSE <<>>],
           [op |-> "wrote", st |-> st, n |-> ch.n[st] + 1]>>)
  /\ UNCHANGED <<cfg, clk, scan, main, cmd, snd, col>>
Grow(k) ==
  /\ ch.up /\ ch.mem < k
  /\ ch' = [ch EXCEPT !.mem = k]
  /\ See(<<[op |-> "mem", k |-> k], [op |-> "held", k |-> k]>>)
  /\ UNCHANGED <<cfg, clk, pipe, scan, main, cmd, snd, col>>
MakeFile(i) ==
  /\ ch.up /\ i \notin ch.made
  /\ ch' = [ch EXCEPT !.made = @ \cup {i}]
  /\ See(<<[op |-> "file", i |-> i, size |-> i]>>)
  /\ UNCHANGED <<cfg, clk, pipe, scan, main, cmd, snd, col>>
Die(c) ==
  /\ ch.up
  /\ ch' = [ch EXCEPT !.up = FALSE, !.how = IF c < 0 THEN "signal" ELSE "exit", !.code = IF c < 0 THEN 0 - c ELSE c]
  /\ See(<<[op |-> "die", how |-> IF c < 0 THEN "signal" ELSE "exit", code |-> IF c < 0 THEN 0 - c ELSE c], [op |-> "gone"]>>)
  /\ UNCHANGED <<cfg, clk, pipe, scan, main, cmd, snd, col>>
\* a signal passed on by monny arrives
Hit ==
  /\ ch.up /\ ch.pend # <<>>
  /\ IF Head(ch.pend) = "kill" \/ ~cfg.catch
     THEN /\ ch' = [ch EXCEPT !.up = FALSE, !.pend = <<>>, !.how = "signal", !.code = 9]
          /\ See(<<[op |-> "gone"]>>)
     ELSE /\ ch' = [ch EXCEPT !.pend = Tail(@)]
          /\ See(<<[op |-> "gotsig", s |-> Head(ch.pend)]>>)
  /\ UNCHANGED <<cfg, clk, pipe, scan, main, cmd, snd, col>>

(* signals to monny; one is sent when the previous one was passed on *)
Signal(s) ==
  /\ main.pc \in {"loop"} /\ main.sent < cfg.sigs /\ main.chan = <<>> /\ ch.pend = <<>>
  /\ main' = [main EXCEPT !.chan = Append(@, s), !.sent = @ + 1]
  /\ See(<<[op |-> "sig", s |-> s]>>)
  /\ UNCHANGED <<cfg, clk, ch, pipe, scan, cmd, snd, col>>

--------------------------------------------------------------------------------
(* reports *)
\* what a sender reports is taken over when it runs
Trigger(s, reason) == IF cmd.waiting THEN s ELSE Append(s, [reason |-> reason, pc |-> "new", snap |-> <<>>, upto |-> 0])
Rate == LET n == IF cfg.per > 0 THEN Cardinality({i \in 1..Len(cmd.matches) : clk - cmd.matches[i][4] <= cfg.per}) ELSE Len(cmd.matches)
        IN n >= cfg.qty
Create(i) ==
  /\ i \in 1..Len(snd) /\ snd[i].pc = "new"
  /\ LET reason == snd[i].reason
         quiet == \/ reason = Alert /\ cmd.matches = <<>> /\ cmd.delivered > 0
                  \/ reason = Success /\ cfg.nos
                  \/ reason = Failure /\ cfg.nof
                  \/ reason = AlertRate /\ ~Rate
         snap == [reason |-> reason, o |-> cmd.hist.o, e |-> cmd.hist.e, success |-> cmd.success, code |-> cmd.code, valid |-> cmd.valid,
                  killed |-> cmd.killed, kr |-> cmd.kr, start |-> 0, finish |-> cmd.finish, dur |-> Max(cmd.finish, 0),
                  matches |-> [j \in 1..Len(cmd.matches) |-> <<cmd.matches[j][1], cmd.matches[j][2], cmd.matches[j][3]>>],
                  mtimes |-> [j \in 1..Len(cmd.matches) |-> cmd.matches[j][4]],
                  missing |-> cmd.missing, created |-> cmd.created, u0 |-> 0, posok |-> TRUE, cre |-> IF Asp = "C15" THEN clk ELSE 0,
                  maxmem |-> IF Broken = "memory now" THEN (IF ch.up THEN ch.mem ELSE 0) ELSE cmd.maxmem] @@ Me
     IN IF quiet THEN snd' = [snd EXCEPT ![i].pc = "done"]
        ELSE snd' = [snd EXCEPT ![i].pc = "send", ![i].snap = snap, ![i].upto = cmd.delivered + Len(cmd.matches)]
  /\ Blind /\ UNCHANGED <<cfg, clk, ch, pipe, scan, main, cmd, col>>
Index(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
Request(i, ok) ==
  /\ i \in 1..Len(snd) /\ snd[i].pc = "send"
  /\ (~ok => col.fails < MaxFail)
  /\ LET snp == IF Broken = "fresh retry" /\ col.fails > 0 THEN [snd[i].snap EXCEPT !.o = cmd.hist.o] ELSE snd[i].snap
         snap == IF Broken = "late stamp" /\ col.fails > 0 THEN [snp EXCEPT !.cre = clk + 1] ELSE snp
         known == snap \in Elems(col.contents)
         cs == IF known THEN col.contents ELSE Append(col.contents, snap)
     IN /\ col' = [fails |-> col.fails + (IF ok THEN 0 ELSE 1), q |-> col.q + 1, contents |-> cs]
        /\ See(<<[op |-> "rep", q |-> col.q + 1, r |-> Index(cs, snap)] @@ snap,
                 [op |-> "ack", q |-> col.q + 1, kind |-> IF ok THEN "ok" ELSE "error"]>>
              \* monny reports an error of its own
              \o (IF ~ok /\ (~cfg.noerr \/ Broken = "report everything") THEN <<[op |-> "errrep", private |-> FALSE]>> ELSE <<>>))
  /\ snd' = IF ok \/ Broken = "give up" THEN [snd EXCEPT ![i].pc = "clear"] ELSE snd
  /\ UNCHANGED <<cfg, clk, ch, pipe, scan, main, cmd>>
Clear(i) ==
  /\ i \in 1..Len(snd) /\ snd[i].pc = "clear"
  /\ snd' = [snd EXCEPT ![i].pc = "done", ![i].snap = <<>>]
  /\ cmd' = IF snd[i].reason \in {Alert, AlertRate} /\ snd[i].upto > cmd.delivered
            THEN [cmd EXCEPT !.matches = IF Broken = "clear all" THEN <<>> ELSE SubSeq(@, snd[i].upto - cmd.delivered + 1, Len(@)),
                             !.delivered = snd[i].upto]
            ELSE cmd
  /\ Blind /\ UNCHANGED <<cfg, clk, ch, pipe, scan, main, col>>
\* nothing is in flight
Settle ==
  /\ \A i \in 1..Len(snd) : snd[i].pc = "done"
  /\ \A st \in Streams : scan[st].pc = "read"
  /\ obs.old # DeliveredMatches(obs, Alert) \cup DeliveredMatches(obs, AlertRate)
  /\ See(<<[op |-> "settle"]>>)
  /\ UNCHANGED <<cfg, clk, ch, pipe, scan, main, cmd, snd, col>>

--------------------------------------------------------------------------------
(* the scanners *)
Read(st) ==
  /\ scan[st].pc = "read" /\ pipe[st] # <<>>
  /\ scan' = [scan EXCEPT ![st] = [pc |-> "match", l |-> Head(pipe[st])]]
  /\ pipe' = [pipe EXCEPT ![st] = Tail(@)]
  /\ See(<<[op |-> "out", st |-> st, n |-> Head(pipe[st])[1], to |-> Head(pipe[st])[1]]>>)
  /\ UNCHANGED <<cfg, clk, ch, main, cmd, snd, col>>
Match(st) ==
  /\ scan[st].pc = "match"
  /\ LET hit == scan[st].l[2] /\ cfg.rules > 0
     IN /\ cmd' = IF hit THEN [cmd EXCEPT !.matches = Append(@, <<st, scan[st].l[1], 1, clk>>)] ELSE cmd
        /\ scan' = [scan EXCEPT ![st].pc = IF hit THEN "alert" ELSE "hist"]
  /\ Blind /\ UNCHANGED <<cfg, clk, ch, pipe, main, snd, col>>
RaiseAlert(st) ==
  /\ scan[st].pc = "alert"
  /\ snd' = Trigger(snd, IF cfg.qty > 0 THEN AlertRate ELSE Alert)
  /\ scan' = [scan EXCEPT ![st].pc = "hist"]
  /\ Blind /\ UNCHANGED <<cfg, clk, ch, pipe, main, cmd, col>>
Hist(st) ==
  /\ scan[st].pc = "hist"
  /\ LET N == IF st = "o" THEN cfg.ho ELSE cfg.he
         h == Append(cmd.hist[st], scan[st].l[1])
     IN cmd' = [cmd EXCEPT !.hist[st] = SubSeq(h, Max(1, Len(h) - N + 1), Len(h))]
  /\ scan' = [scan EXCEPT ![st] = [pc |-> "read", l |-> <<0, FALSE>>]]
  /\ Blind /\ UNCHANGED <<cfg, clk, ch, pipe, main, snd, col>>

(* the waiter *)
Reap ==
  /\ ~ch.up /\ ~main.fin
  /\ Broken = "no drain" \/ \A st \in Streams : scan[st].pc = "read" /\ pipe[st] = <<>>
  /\ main' = [main EXCEPT !.fin = TRUE, !.runfin = TRUE]
  /\ Blind /\ UNCHANGED <<cfg, clk, ch, pipe, scan, cmd, snd, col>>

--------------------------------------------------------------------------------
(* the main loop *)
Pass(s) == IF ch.up THEN [ch EXCEPT !.pend = Append(@, s)] ELSE ch
Killed_(kr) == [cmd EXCEPT !.killed = TRUE, !.kr = kr, !.finish = clk]
OnSignal ==
  /\ main.pc = "loop" /\ main.chan # <<>>
  /\ main' = [main EXCEPT !.chan = Tail(@), !.sigd = TRUE]
  /\ ch' = Pass(Head(main.chan))
  /\ IF main.sigd THEN UNCHANGED <<cmd, snd>>
     ELSE cmd' = Killed_(BySignal) /\ snd' = Trigger(snd, Killed)
  /\ Blind /\ UNCHANGED <<cfg, clk, pipe, scan, col>>
OnTimeout ==
  /\ main.pc = "loop" /\ main.tk
  /\ ch' = Pass("kill")
  /\ IF main.sigd
     THEN main' = [main EXCEPT !.tk = FALSE] /\ UNCHANGED <<cmd, snd>>
     ELSE main' = [main EXCEPT !.tk = FALSE, !.pc = "done"] /\ cmd' = Killed_(ByTimeout) /\ snd' = Trigger(snd, Killed)
  /\ Blind /\ UNCHANGED <<cfg, clk, pipe, scan, col>>
OnTimeWarn ==
  /\ main.pc = "loop" /\ main.tw
  /\ main' = [main EXCEPT !.tw = FALSE]
  /\ snd' = Trigger(snd, TimeWarning)
  /\ Blind /\ UNCHANGED <<cfg, clk, ch, pipe, scan, cmd, col>>
Look ==
  /\ main.pc = "loop" /\ main.look
  /\ LET mem == IF ch.up THEN ch.mem ELSE 0
         warn == cfg.mw > 0 /\ mem >= cfg.mw /\ (Broken = "warn again" \/ ~cmd.mws)
         kill == cfg.mk > 0 /\ mem >= cfg.mk
         s1 == IF warn THEN Trigger(snd, MemoryWarning) ELSE snd
         c0 == [cmd EXCEPT !.maxmem = Max(@, mem)]
         c1 == IF warn THEN [c0 EXCEPT !.mws = TRUE] ELSE c0
     IN /\ snd' = IF kill /\ ~main.sigd THEN Trigger(s1, Killed) ELSE s1
        /\ cmd' = IF kill /\ ~main.sigd THEN [c1 EXCEPT !.killed = TRUE, !.kr = ByMemory, !.finish = clk] ELSE c1
        /\ ch' = IF kill THEN Pass("kill") ELSE ch
        /\ main' = [main EXCEPT !.look = FALSE, !.pc = IF kill /\ ~main.sigd THEN "done" ELSE @]
  /\ Blind /\ UNCHANGED <<cfg, clk, pipe, scan, col>>
\* the command ended
OnFinished ==
  /\ main.pc = "loop" /\ main.runfin
  /\ IF main.sigd
     THEN main' = [main EXCEPT !.runfin = FALSE, !.pc = "done"] /\ UNCHANGED cmd
     ELSE /\ main' = [main EXCEPT !.runfin = FALSE, !.pc = "files"]
          /\ cmd' = [cmd EXCEPT !.finish = clk, !.success = Broken = "success early" /\ ch.how = "exit" /\ ch.code = 0,
                                !.code = IF ch.how = "exit" THEN ch.code ELSE 0 - 1, !.valid = ch.how = "exit"]
  /\ Blind /\ UNCHANGED <<cfg, clk, ch, pipe, scan, snd, col>>
CheckFile ==
  /\ main.pc = "files" /\ main.file <= Len(cfg.files)
  /\ main' = [main EXCEPT !.file = @ + 1]
  /\ IF main.file \in ch.made
     THEN cmd' = [cmd EXCEPT !.created = Append(@, <<cfg.base[main.file], main.file>>)] /\ UNCHANGED snd
     ELSE cmd' = [cmd EXCEPT !.missing = Append(@, main.file), !.success = FALSE] /\ snd' = Trigger(snd, FileNotCreated)
  /\ Blind /\ UNCHANGED <<cfg, clk, ch, pipe, scan, col>>
Verdict_ ==
  /\ main.pc = "files" /\ main.file > Len(cfg.files)
  /\ main' = [main EXCEPT !.pc = "done"]
  /\ LET good == ch.how = "exit" /\ ch.code = 0 /\ (cmd.missing = <<>> \/ Broken = "success anyway")
     IN /\ cmd' = [cmd EXCEPT !.success = good]
        /\ snd' = IF ~(ch.how = "exit" /\ ch.code = 0) THEN Trigger(snd, Failure)
                  ELSE IF good THEN Trigger(snd, Success) ELSE snd
  /\ Blind /\ UNCHANGED <<cfg, clk, ch, pipe, scan, col>>
\* Command.Wait
Wait1 ==
  /\ main.pc = "done" /\ main.fin /\ ~cmd.waiting
  /\ cmd' = [cmd EXCEPT !.waiting = TRUE]
  /\ Blind /\ UNCHANGED <<cfg, clk, ch, pipe, scan, main, snd, col>>
Exit ==
  /\ main.pc = "done" /\ cmd.waiting
  /\ \A i \in 1..Len(snd) : snd[i].pc = "done" \/ (Broken = "no wait" /\ snd[i].pc = "new")
  /\ main' = [main EXCEPT !.pc = "exited"]
  /\ See(<<[op |-> "exit", code |-> 0]>>)
  /\ UNCHANGED <<cfg, clk, ch, pipe, scan, cmd, snd, col>>

--------------------------------------------------------------------------------
Internal ==
  \/ \E st \in Streams : Read(st) \/ Match(st) \/ RaiseAlert(st) \/ Hist(st)
  \/ Reap \/ OnSignal \/ OnTimeout \/ OnTimeWarn \/ Look \/ OnFinished \/ CheckFile \/ Verdict_ \/ Wait1 \/ Exit
  \/ \E i \in 1..Len(snd) : Create(i) \/ Clear(i)

Busy ==
  \/ \E st \in Streams : scan[st].pc # "read" \/ pipe[st] # <<>>
  \/ ~ch.up /\ ~main.fin
  \/ main.pc = "loop" /\ (main.chan # <<>> \/ main.tk \/ main.tw \/ main.look \/ main.runfin)
  \/ main.pc = "files" \/ (main.pc = "done" /\ main.fin /\ ~cmd.waiting)
  \/ \E i \in 1..Len(snd) : snd[i].pc \in {"new", "clear"}
  \/ ch.up /\ ch.pend # <<>>

Tick ==
  /\ ~Busy /\ main.pc = "loop" /\ clk < MaxT
  /\ clk' = clk + 1
  /\ main' = [main EXCEPT !.tk = @ \/ (cfg.tk = clk + 1 \/ (Broken = "early" /\ cfg.tk = clk + 2)), !.tw = @ \/ (cfg.tw = clk + 1), !.look = cfg.mems # {}]
  /\ Blind /\ UNCHANGED <<cfg, ch, pipe, scan, cmd, snd, col>>

World ==
  \/ \E st \in Streams, m \in (IF cfg.rules > 0 THEN BOOLEAN ELSE {FALSE}) : Line(st, m)
  \/ \E k \in cfg.mems : Grow(k)
  \/ \E i \in 1..Len(cfg.files) : MakeFile(i)
  \/ \E c \in cfg.codes : Die(c)
  \/ \E s \in {"int"} : Signal(s)
  \/ Settle

Next ==
  /\ bad = ""
  /\ \/ Internal \/ World \/ Tick \/ Hit
     \/ \E i \in 1..Len(snd) : \E ok \in BOOLEAN : Request(i, ok)

Spec == Init /\ [][Next]_vars

\* everything inside monny runs, the command ends, the collector fails only so often
Fairness ==
  /\ WF_vars(Internal)
  /\ WF_vars(Tick)
  /\ WF_vars(Hit)
  /\ WF_vars(\E c \in cfg.codes : Die(c))
  /\ WF_vars(\E i \in 1..Len(snd) : \E ok \in BOOLEAN : Request(i, ok))
LiveSpec == Spec /\ Fairness

Observed == bad = ""
\* it ends, with everything delivered
Ends == <>(main.pc = "exited")
Delivers == \A r \in 1..9 : (r \in {snd[i].reason : i \in 1..Len(snd)}) ~> (\A i \in 1..Len(snd) : snd[i].pc = "done")
=============================================================================
