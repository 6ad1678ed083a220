--------------------------------- MODULE Sup ---------------------------------
(***************************************************************************)
(* The supervisor: monny runs a command, passes its output through and     *)
(* sends reports to a collector (C01-C09, C11, C14-C16).                   *)
(*                                                                         *)
(* A behaviour is what the world around the monny process can observe: the *)
(* command it runs (which the world controls), the output of monny, the    *)
(* requests the collector receives, signals, and the end of monny.  All    *)
(* times are milliseconds since monny was started (t) or unix seconds (u). *)
(*                                                                         *)
(* Every property is one aspect; cfg.asp lists the aspects that are        *)
(* decided.  Always(a, s, e, n) is the condition on the step s -> n caused *)
(* by event e as far as aspect a is concerned.                             *)
(*                                                                         *)
(* Configuration (cfg):                                                    *)
(*   ho, he    history limits of stdout and stderr                         *)
(*   rules     number of rules;  qty, per  rate rule (0: none)             *)
(*   nos, nof  no report on success, on failure                            *)
(*   tw, tk    warn and kill after ms (0: never)                           *)
(*   mw, mk    warn and kill at K of memory (0: never)                     *)
(*   files     names of expected files                                     *)
(*   slack     ms within which something prompt must have happened         *)
(*   memper    ms between two looks at the memory                          *)
(*   sec       ms in a second                                              *)
(*   nostart   why the command can not be started ("": it can)             *)
(*   speed     how much faster the clock of monny is                       *)
(*   full      streams of monny that nothing can be written to             *)
(*   noerr     monny does not report its own errors                        *)
(*   jit       ms by which two things close to each other may be seen in   *)
(*             either order                                                *)
(*                                                                         *)
(* State:                                                                  *)
(*   wr, done, out   per stream: lines the command was told to write, has  *)
(*                   written, that appeared on monny's output              *)
(*   mt              matches of the lines: <<stream, line, rule>> -> time  *)
(*   mu              the same in seconds (only for C15)                    *)
(*   fed, fedeof     bytes put into monny's stdin, and its end             *)
(*   mem             largest memory the command holds, in K                *)
(*   made            files that exist: index -> size and time             *)
(*   hello, die, gone  the command is known to run; it was told to end; it *)
(*                   is known to have ended                                *)
(*   sigs, got       signals sent to monny, received by the command        *)
(*   sigout          output seen before the first signal                   *)
(*   rep             reports by content in the order they were first seen  *)
(*   att             attempts (requests): number -> report                 *)
(*   thaw            when monny went on after it was stopped               *)
(*   old             matches known to have been delivered                  *)
(*   eof             the command has read its stdin up to the end          *)
(*   me              identity of the run: what every report says about it  *)
(*   heldt, peak     since when memory of this size is held; memory that   *)
(*                   was held so long that monny has seen it               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Success == 1  Failure == 2  Alert == 3  AlertRate == 4
MemoryWarning == 5  TimeWarning == 6  FileNotCreated == 7  Killed == 8  Start == 9
ByTimeout == 1  ByMemory == 2  BySignal == 3

None == [t |-> -1]
Elems(q) == {q[i] : i \in 1..Len(q)}
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x

SupInit(cfg) ==
  {[wr |-> [o |-> 0, e |-> 0], done |-> [o |-> 0, e |-> 0], out |-> [o |-> 0, e |-> 0],
    mt |-> [x \in {} |-> 0], mu |-> [x \in {} |-> 0], fed |-> 0, fedeof |-> FALSE, mem |-> 0, memt |-> 0, made |-> [i \in {} |-> 0],
    thaw |-> 0, hello |-> None, die |-> None, gone |-> None, sigs |-> <<>>, got |-> <<>>, sigout |-> [o |-> 0, e |-> 0],
    me |-> None, heldt |-> None, peak |-> 0, rep |-> <<>>, att |-> [q \in {} |-> 0], acks |-> 0, old |-> {}, eof |-> FALSE, exited |-> FALSE]}

Aspect(cfg, a) == a \in Elems(cfg.asp)

--------------------------------------------------------------------------------
(* derived *)

Missing(cfg, s) == {i \in 1..Len(cfg.files) : i \notin DOMAIN s.made}
Reports(s, reason) == {r \in 1..Len(s.rep) : s.rep[r].reason = reason}
Acked(s, reason) == {r \in Reports(s, reason) : s.rep[r].acks > 0}
\* how many reports of this reason were acknowledged (equal ones may have been triggered several times)
RECURSIVE SumAcks(_, _)
SumAcks(s, R) == IF R = {} THEN 0 ELSE LET r == CHOOSE r \in R : TRUE IN s.rep[r].acks + SumAcks(s, R \ {r})
NAcked(s, reason) == SumAcks(s, Reports(s, reason))

Died(s) == s.die # None
\* the command ended although nobody told it to
Murdered(s) == s.gone # None /\ s.die = None
\* it ended by itself and nobody sent a signal
Natural(s) == Died(s) /\ s.sigs = <<>>

\* the first signal certainly arrived while the command was running (monny does nothing until it is thawed)
SigRunning(cfg, s) == s.sigs # <<>> /\ (s.got # <<>> \/ s.die = None \/ Max(s.sigs[1].t, s.thaw) + cfg.jit < s.die.t)

OverTime(cfg, t) == cfg.tk > 0 /\ t >= cfg.tk
OverMemory(cfg, s) == cfg.mk > 0 /\ s.mem >= cfg.mk

\* reports that a run may trigger, as an upper bound
Triggers(cfg, s, reason) ==
  CASE reason = Success -> IF Died(s) /\ s.die.how = "exit" /\ s.die.code = 0 /\ ~cfg.nos /\ Missing(cfg, s) = {} THEN 1 ELSE 0
    [] reason = Failure -> IF Died(s) /\ ~(s.die.how = "exit" /\ s.die.code = 0) /\ ~cfg.nof THEN 1 ELSE 0
    [] reason = Alert -> IF cfg.qty > 0 THEN 0 ELSE Cardinality({<<x[1], x[2]>> : x \in DOMAIN s.mt})
    [] reason = AlertRate -> IF cfg.qty = 0 THEN 0 ELSE Cardinality({<<x[1], x[2]>> : x \in DOMAIN s.mt})
    [] reason = FileNotCreated -> IF Died(s) THEN Cardinality(Missing(cfg, s)) ELSE 0
    [] reason \in {MemoryWarning, TimeWarning, Killed} -> 1
    [] OTHER -> 0

\* the command ended by itself, and certainly neither a limit nor a signal interfered
Undisturbed(cfg, s) ==
  /\ Natural(s)
  /\ (cfg.tk > 0 => s.gone # None /\ s.gone.t < cfg.tk - cfg.jit)
  /\ (cfg.mk > 0 => s.mem < cfg.mk)

\* the limit was exceeded long enough ago, while the command was running
MustTimeWarn(cfg, s) == cfg.tw > 0 /\ s.hello # None /\ Died(s) /\ s.die.t - s.hello.t > cfg.tw + cfg.slack
MustMemWarn(cfg, s) == cfg.mw > 0 /\ s.mem >= cfg.mw /\ Died(s) /\ s.die.t - s.memt > cfg.slack + cfg.memper
\* it was killed at a limit above that of the warning
KilledBy(s, kr) == \E r \in Acked(s, Killed) : s.rep[r].kr = kr
PassedMemWarn(cfg, s) == cfg.mw > 0 /\ cfg.mw <= cfg.mk /\ KilledBy(s, ByMemory)
PassedTimeWarn(cfg, s) == cfg.tw > 0 /\ cfg.tw + cfg.slack < cfg.tk /\ KilledBy(s, ByTimeout) /\ s.sigs = <<>>

\* everything that must have been acknowledged when monny ends
Owed(cfg, s, reason) ==
  CASE reason \in {Success, Failure} -> IF Undisturbed(cfg, s) THEN Triggers(cfg, s, reason) ELSE 0
    [] reason = FileNotCreated -> IF Undisturbed(cfg, s) THEN Cardinality(Missing(cfg, s)) ELSE 0
    [] reason = Killed -> IF Murdered(s) \/ SigRunning(cfg, s) THEN 1 ELSE 0
    [] reason = TimeWarning -> IF MustTimeWarn(cfg, s) THEN 1 ELSE 0
    [] reason = MemoryWarning -> IF MustMemWarn(cfg, s) THEN 1 ELSE 0
    [] OTHER -> 0
DeliveredMatches(s, reason) == UNION {s.rep[r].mset : r \in Acked(s, reason)}
Written(s) == {x \in DOMAIN s.mt : x[2] <= s.out[x[1]]}
AlertsDelivered(cfg, s) == cfg.qty = 0 => Written(s) \subseteq DeliveredMatches(s, Alert)
\* the end of monny, or that it should have ended long ago: what is not delivered now never will be
Ended(e) == e.op = "exit" \/ (e.op = "stall" /\ e.what = "exit")
\* the run was reported as killed or with its verdict, but not both
OneEnd(cfg, s) ==
  LET k == NAcked(s, Killed)  v == NAcked(s, Success) + NAcked(s, Failure)
  IN k + v <= 1 /\ (~cfg.nos /\ ~cfg.nof /\ Missing(cfg, s) = {} => k + v = 1)
AllDelivered(cfg, s) ==
  /\ \A reason \in 1..9 : NAcked(s, reason) >= Owed(cfg, s, reason)
  /\ AlertsDelivered(cfg, s)

--------------------------------------------------------------------------------
(* histories in reports (C02) *)

\* q is the last lines of a stream with k lines, limited to N of them
Tail_(q, N, k) == Len(q) = Min(Max(N, 0), k) /\ \A i \in 1..Len(q) : q[i] = k - Len(q) + i
\* the least number of lines that the history must cover when the report was triggered
LowLines(cfg, s, e, st) ==
  LET m == {x[2] : x \in {y \in Elems(e.matches) : y[1] = st}}
  IN CASE e.reason \in {Alert, AlertRate} -> IF m = {} THEN 0 ELSE SetMax(m) - 1
       [] e.reason = Killed /\ e.kr = BySignal -> s.sigout[st] - 1
       [] OTHER -> 0
HistoryOk(cfg, s, e, st, N, q) ==
  CASE e.reason \in {Success, Failure, FileNotCreated} -> Tail_(q, N, s.wr[st])
    [] OTHER -> \E k \in Max(0, LowLines(cfg, s, e, st))..s.wr[st] : Tail_(q, N, k)

--------------------------------------------------------------------------------
(* matches in alerts (C08, C09) *)

Before(x, y) == x[1] = y[1] => (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] < y[3]))
MatchesOk(s, e) ==
  /\ e.matches # <<>> /\ e.posok
  /\ \A i \in 1..Len(e.matches) : e.matches[i] \in DOMAIN s.mt /\ e.matches[i] \notin s.old
  /\ \A i, j \in 1..Len(e.matches) : i < j => Before(e.matches[i], e.matches[j])
\* at least qty matches of the report lie within one period
RateOk(cfg, e) ==
  IF cfg.per = 0 THEN Len(e.matches) >= cfg.qty
  ELSE LET last == IF e.mtimes = <<>> THEN 0 ELSE SetMax(Elems(e.mtimes))
       IN Cardinality({i \in 1..Len(e.mtimes) : last - e.mtimes[i] <= cfg.per}) >= cfg.qty
\* matches that no delivered rate alert contained
Undelivered(s) == Written(s) \ DeliveredMatches(s, AlertRate)
\* a rate that was certainly reached and not reported
RateMissed(cfg, s) ==
  IF cfg.per = 0 THEN Cardinality(Undelivered(s)) >= cfg.qty
  ELSE \E x \in Undelivered(s) :
         Cardinality({y \in Undelivered(s) : s.mt[y] >= s.mt[x] /\ s.mt[y] - s.mt[x] < cfg.per - cfg.slack}) >= cfg.qty

--------------------------------------------------------------------------------
(* reports that describe the end of the run (C03) *)

TruthOk(cfg, s, e) ==
  CASE e.reason = Success ->
         /\ Died(s) /\ s.die.how = "exit" /\ s.die.code = 0 /\ Missing(cfg, s) = {} /\ ~cfg.nos
         /\ e.success /\ e.code = 0 /\ e.valid /\ ~e.killed
    [] e.reason = Failure ->
         /\ Died(s) /\ ~(s.die.how = "exit" /\ s.die.code = 0) /\ ~cfg.nof
         /\ ~e.success /\ ~e.killed
         /\ IF s.die.how = "exit" THEN e.valid /\ e.code = s.die.code ELSE ~e.valid
    [] e.reason = FileNotCreated -> Died(s) /\ ~e.success
    [] e.reason = Killed -> e.killed /\ ~e.success /\ ~e.valid
    [] OTHER -> TRUE
\* when did the run end at the earliest, for the report e
EndLow(cfg, s, e) ==
  IF e.reason = Killed
  THEN CASE e.kr = BySignal -> IF s.sigs = <<>> THEN None ELSE s.sigs[1]
         [] OTHER -> None
  ELSE s.die
TimesOk(cfg, s, e) ==
  e.reason \in {Success, Failure, Killed, FileNotCreated} =>
    /\ e.start <= e.finish /\ e.dur >= 0
    /\ e.start >= e.u0 /\ (s.hello # None => e.start <= s.hello.u)
    /\ e.finish <= e.u /\ e.dur <= e.t + 1
    /\ LET b == EndLow(cfg, s, e)
       IN b # None => e.finish >= b.u /\ (s.hello # None => e.dur >= b.t - s.hello.t - 2)
    /\ (e.reason = Killed /\ e.kr = ByTimeout => e.dur >= cfg.tk)

--------------------------------------------------------------------------------
(* files (C11) *)

RECURSIVE CountIn(_, _)
CountIn(q, x) == IF q = <<>> THEN 0 ELSE (IF Head(q) = x THEN 1 ELSE 0) + CountIn(Tail(q), x)
FileEntries(cfg, s) == {<<cfg.base[i], s.made[i]>> : i \in DOMAIN s.made}
FilesOk(cfg, s, e) ==
  CASE e.reason = FileNotCreated ->
         /\ Died(s) /\ Missing(cfg, s) # {}
         /\ e.missing # <<>> /\ 0 \notin Elems(e.missing)
         /\ Elems(e.missing) \subseteq Missing(cfg, s)
         /\ \A i \in Elems(e.missing) : CountIn(e.missing, i) = 1
         /\ ~e.success
    [] e.reason \in {Success, Failure} ->
         /\ (e.reason = Success => Missing(cfg, s) = {})
         /\ Len(e.created) = Cardinality(DOMAIN s.made)
         /\ \A x \in FileEntries(cfg, s) :
              CountIn(e.created, x) = Cardinality({i \in DOMAIN s.made : <<cfg.base[i], s.made[i]>> = x})
         /\ Elems(e.missing) = Missing(cfg, s)
    [] OTHER -> TRUE
\* the report triggered for the i-th missing file names at least i files
FncOk(cfg, s) ==
  LET R == Reports(s, FileNotCreated) IN
  \A i \in 1..NAcked(s, FileNotCreated) :
    SumAcks(s, {r \in R : s.rep[r].nmiss < i}) < i

--------------------------------------------------------------------------------
(* identity and moment of reports (C15) *)

Unset(x) == x < 0
IdentityOk(s, e) ==
  /\ s.me # None /\ e.id = s.me.id /\ e.host = s.me.host /\ e.cmd = s.me.cmd /\ e.conf = s.me.conf
  /\ e.start >= e.u0 /\ (s.hello # None => e.start <= s.hello.u)
  /\ \A r \in 1..Len(s.rep) : s.rep[r].start = e.start
\* seconds within which a report is created after what triggered it
Prompt(cfg) == (4 * cfg.slack) \div cfg.sec + 1
\* seconds by which an accelerated clock of monny is behind the one that orders the events
Lag(cfg) == IF cfg.speed > 1 THEN cfg.jit \div cfg.sec + 1 ELSE 0
MomentOk(cfg, s, e) ==
  /\ e.start <= e.cre /\ e.cre <= e.u
  /\ (Unset(e.finish) \/ e.finish <= e.u)
  /\ (e.reason \in {Success, Failure, FileNotCreated} =>
        /\ s.die # None /\ e.cre >= s.die.u - Lag(cfg) /\ e.cre >= e.finish
        /\ (s.gone # None /\ s.thaw = 0 => e.cre <= s.gone.u + Prompt(cfg)))
  /\ (e.reason = Killed =>
        /\ e.cre >= e.finish
        /\ (e.kr = BySignal => s.sigs # <<>> /\ e.cre >= s.sigs[1].u - Lag(cfg) /\ (s.thaw = 0 => e.cre <= s.sigs[1].u + Prompt(cfg)))
        /\ (e.kr = ByTimeout /\ s.thaw = 0 /\ s.hello # None => e.cre <= s.hello.u + (cfg.tk \div cfg.sec) + Prompt(cfg)))
  \* not before the last line it is about
  /\ \A i \in 1..Len(e.matches) : e.matches[i] \in DOMAIN s.mu => e.cre >= s.mu[e.matches[i]] - Lag(cfg)
  /\ (e.reason = TimeWarning => e.cre >= e.start + cfg.tw \div cfg.sec)
  /\ (e.reason = Killed /\ e.kr = ByTimeout => e.cre >= e.start + cfg.tk \div cfg.sec)
  /\ (e.reason = TimeWarning /\ s.thaw = 0 /\ s.hello # None => e.cre <= s.hello.u + (cfg.tw \div cfg.sec) + Prompt(cfg))
\* nothing is claimed that did not happen
ClaimsOk(cfg, s, e) ==
  /\ (e.success => Died(s) /\ s.die.how = "exit" /\ s.die.code = 0 /\ Missing(cfg, s) = {} /\ ~e.killed)
  /\ (e.valid => Died(s) /\ s.die.how = "exit" /\ s.die.code = e.code)
  /\ (e.killed => s.sigs # <<>> \/ OverTime(cfg, e.t) \/ OverMemory(cfg, s))
  /\ (e.killed <=> e.kr # 0)
  /\ (~Unset(e.finish) => Died(s) \/ e.killed)
  /\ (e.created # <<>> \/ e.missing # <<>> => Died(s))
MemoryOk(cfg, s, e) ==
  /\ e.maxmem >= s.peak
  /\ e.maxmem <= 2 * s.mem + 300000
  /\ (e.reason = MemoryWarning => e.maxmem >= cfg.mw)
  /\ (e.reason = Killed /\ e.kr = ByMemory => e.maxmem >= cfg.mk)
\* the memory was held long enough to be seen
Seen(cfg, s, e) == s.heldt # None /\ e.t - s.heldt.t > cfg.memper + cfg.slack

--------------------------------------------------------------------------------
(* steps *)

Update(cfg, s, e) ==
  CASE e.op = "hello" -> [s EXCEPT !.hello = [t |-> e.t, u |-> e.u]]
    [] e.op = "line" -> [s EXCEPT !.wr[e.st] = e.n,
                                  !.mt = [x \in {<<e.st, e.n, r>> : r \in Elems(e.m)} |-> e.t] @@ @,
                                  !.mu = IF "C15" \in Elems(cfg.asp) THEN [x \in {<<e.st, e.n, r>> : r \in Elems(e.m)} |-> e.u] @@ @ ELSE @]
    [] e.op = "wrote" -> [s EXCEPT !.done[e.st] = e.n]
    [] e.op = "out" -> [s EXCEPT !.out[e.st] = e.to]
    [] e.op = "feed" -> [s EXCEPT !.fed = @ + e.n]
    [] e.op = "feedeof" -> [s EXCEPT !.fedeof = TRUE]
    [] e.op = "in" -> [s EXCEPT !.eof = e.eof]
    [] e.op = "begin" -> [s EXCEPT !.me = [t |-> e.t, id |-> e.id, host |-> e.host, cmd |-> e.cmd, conf |-> e.conf]]
    [] e.op = "mem" -> [s EXCEPT !.mem = Max(@, e.k), !.memt = e.t, !.heldt = None,
                                 !.peak = IF Seen(cfg, s, e) THEN Max(@, s.heldt.k) ELSE @]
    [] e.op = "held" -> [s EXCEPT !.heldt = [t |-> e.t, k |-> e.k]]
    [] e.op = "file" -> [s EXCEPT !.made = (e.i :> e.size) @@ @]
    [] e.op = "unfile" -> [s EXCEPT !.made = [i \in DOMAIN @ \ {e.i} |-> @[i]]]
    [] e.op = "sig" -> [s EXCEPT !.sigs = Append(@, [t |-> e.t, u |-> e.u, s |-> e.s]),
                                 !.sigout = IF s.sigs = <<>> THEN s.out ELSE @]
    [] e.op = "gotsig" -> [s EXCEPT !.got = Append(@, e.s)]
    [] e.op = "die" -> [s EXCEPT !.die = [t |-> e.t, u |-> e.u, how |-> e.how, code |-> e.code],
                                 !.peak = IF Seen(cfg, s, e) THEN Max(@, s.heldt.k) ELSE @]
    [] e.op = "gone" -> [s EXCEPT !.gone = [t |-> e.t, u |-> e.u]]
    [] e.op = "rep" ->
         [s EXCEPT !.att = (e.q :> e.r) @@ @,
                   !.rep = IF e.r <= Len(@) THEN @
                           ELSE Append(@, [reason |-> e.reason, acks |-> 0, mset |-> Elems(e.matches), nmiss |-> Len(e.missing), start |-> e.start, kr |-> e.kr])]
    [] e.op = "ack" -> IF e.kind = "ok" THEN [s EXCEPT !.rep[s.att[e.q]].acks = @ + 1] ELSE s
    [] e.op = "settle" -> [s EXCEPT !.old = DeliveredMatches(s, Alert) \cup DeliveredMatches(s, AlertRate)]
    [] e.op = "thaw" -> [s EXCEPT !.thaw = e.t]
    [] e.op = "exit" -> [s EXCEPT !.exited = TRUE]
    [] OTHER -> s

\* a report received for the first time
New(s, e) == e.op = "rep" /\ e.r > Len(s.rep)
Verdict(e) == e.reason \in {Success, Failure}
\* the last moment at which a command that runs too long must be dead
Late(cfg, s, e) == cfg.tk > 0 /\ s.hello # None /\ e.t > s.hello.t + cfg.tk + 4 * cfg.slack

\* lines e.n up to e.to appeared (n = 0: something that is not a line of this stream)
OutOk(s, e) == e.op = "out" => e.n = s.out[e.st] + 1 /\ e.n <= e.to /\ e.to <= s.wr[e.st]
AllOutOf(s, S) == \A st \in S : s.out[st] >= IF s.die # None THEN s.wr[st] ELSE s.done[st]
AllOut(s) == AllOutOf(s, {"o", "e"})

Always(a, cfg, s, e, n) ==
  CASE a = "C01" ->
         /\ OutOk(s, e)
         /\ (e.op = "exit" => AllOut(s))
         /\ (e.op = "in" => e.ok /\ e.n <= s.fed /\ (e.eof => e.n = s.fed /\ s.fedeof))
         /\ (e.op = "stall" => e.what \notin {"write", "stdin"})
    [] a = "C02" ->
         /\ (New(s, e) => HistoryOk(cfg, s, e, "o", cfg.ho, e.o) /\ HistoryOk(cfg, s, e, "e", cfg.he, e.e))
         /\ (Ended(e) => \A reason \in {Success, Failure} : NAcked(s, reason) >= Owed(cfg, s, reason))
    [] a = "C03" ->
         /\ (New(s, e) => TruthOk(cfg, s, e) /\ TimesOk(cfg, s, e))
         /\ Cardinality(Reports(n, Success) \cup Reports(n, Failure)) <= 1
         /\ NAcked(n, Success) + NAcked(n, Failure) <= 1
         /\ (e.op = "rep" /\ Verdict(e) => s.die # None)
         /\ (Ended(e) => \A reason \in 1..8 : NAcked(s, reason) >= Owed(cfg, s, reason))
         /\ (Ended(e) /\ (cfg.nos \/ cfg.nof) => AlertsDelivered(cfg, s))
         \* a command that could not be started has no verdict
         /\ (cfg.nostart # "" => e.op # "rep" /\ (Ended(e) => e.op = "exit" /\ e.code # 0))
    [] a = "C04" ->
         /\ (e.op = "exit" => /\ e.code = 0
                              /\ \A r \in 1..Len(s.rep) : s.rep[r].acks > 0
                              /\ AllDelivered(cfg, s)
                              /\ (s.hello # None => s.gone # None))
         /\ (e.op = "stall" => e.what # "exit")
    [] a = "C05" ->
         /\ (e.op = "rep" =>
               /\ NAcked(s, e.reason) < Triggers(cfg, s, e.reason)
               /\ Cardinality(Reports(n, e.reason)) <= Triggers(cfg, s, e.reason))
         /\ (Ended(e) \/ e.op = "quiet" => AllDelivered(cfg, s) /\ \A r \in 1..Len(s.rep) : s.rep[r].acks > 0)
         /\ OutOk(s, e) /\ (e.op = "exit" => AllOut(s))
         /\ (e.op = "stall" => e.what \notin {"write", "alive"})
         /\ (e.op = "gone" => s.die # None \/ cfg.tk > 0 \/ cfg.mk > 0 \/ s.sigs # <<>>)
    [] a = "C05giveup" ->
         \* about an hour after the report was made nothing is sent any more
         /\ (e.op = "rep" => e.u <= e.cre + 3720 + 2 * Lag(cfg))
         /\ OutOk(s, e) /\ (e.op = "exit" => AllOut(s) /\ e.code \in {0, 1})
         /\ (e.op = "stall" => e.what \notin {"write", "alive"})
         /\ (e.op = "gone" => s.die # None \/ cfg.tk > 0 \/ cfg.mk > 0 \/ s.sigs # <<>>)
    [] a = "C06" ->
         /\ (New(s, e) /\ e.reason = Killed =>
               /\ e.killed
               /\ \/ e.kr = ByTimeout /\ OverTime(cfg, e.t)
                  \/ e.kr = ByMemory /\ OverMemory(cfg, s)
                  \/ e.kr = BySignal /\ s.sigs # <<>>
               /\ ~Undisturbed(cfg, s))
         /\ Cardinality(Reports(n, Killed)) <= 1
         /\ (e.op = "gone" /\ s.die = None => OverTime(cfg, e.t) \/ OverMemory(cfg, s) \/ s.sigs # <<>>)
         /\ (New(s, e) /\ Verdict(e) => s.die # None /\ Reports(s, Killed) = {})
         /\ (New(s, e) /\ e.reason = Killed => Reports(s, Success) \cup Reports(s, Failure) = {})
         /\ (e.op = "quiet" => ~(Late(cfg, s, e) /\ s.gone = None))
         /\ (e.op = "quiet" => ~(OverMemory(cfg, s) /\ e.t > s.memt + 4 * cfg.slack /\ s.gone = None))
         /\ (Ended(e) /\ Murdered(s) => NAcked(s, Killed) = 1)
         /\ (Ended(e) => OneEnd(cfg, s))
         /\ (e.op = "stall" => e.what # "alive")
    [] a = "C07" ->
         /\ (New(s, e) /\ e.reason = TimeWarning => cfg.tw > 0 /\ e.t >= cfg.tw)
         /\ (New(s, e) /\ e.reason = MemoryWarning => cfg.mw > 0 /\ s.mem >= cfg.mw)
         /\ Cardinality(Reports(n, TimeWarning)) <= 1 /\ Cardinality(Reports(n, MemoryWarning)) <= 1
         /\ NAcked(n, TimeWarning) <= 1 /\ NAcked(n, MemoryWarning) <= 1
         /\ (Ended(e) \/ e.op = "quiet" => /\ MustTimeWarn(cfg, s) \/ (Ended(e) /\ PassedTimeWarn(cfg, s)) => NAcked(s, TimeWarning) = 1
                                           /\ MustMemWarn(cfg, s) \/ (Ended(e) /\ PassedMemWarn(cfg, s)) => NAcked(s, MemoryWarning) = 1)
         /\ (e.op = "gone" /\ s.die = None => cfg.tk > 0 \/ cfg.mk > 0 \/ s.sigs # <<>>)
         /\ (New(s, e) => TruthOk(cfg, s, e))
         /\ (Ended(e) => \A reason \in {Success, Failure} : NAcked(s, reason) >= Owed(cfg, s, reason))
         /\ (e.op = "stall" => e.what # "alive")
    [] a = "C08" ->
         /\ (New(s, e) /\ e.reason = Alert => cfg.qty = 0 /\ MatchesOk(s, e))
         /\ (Ended(e) \/ e.op = "quiet" => AlertsDelivered(cfg, s))
         /\ (e.op = "rep" /\ e.reason = Alert => NAcked(s, Alert) < Triggers(cfg, s, Alert))
    [] a = "C09" ->
         /\ (New(s, e) /\ e.reason = AlertRate => cfg.qty > 0 /\ MatchesOk(s, e) /\ RateOk(cfg, e))
         /\ (New(s, e) /\ e.reason = Alert => cfg.qty = 0)
         /\ ((Ended(e) \/ e.op = "quiet") /\ cfg.qty > 0 => ~RateMissed(cfg, s))
    [] a = "C11" ->
         /\ (New(s, e) => FilesOk(cfg, s, e))
         /\ (e.op = "rep" /\ e.reason = FileNotCreated => NAcked(s, FileNotCreated) < Triggers(cfg, s, FileNotCreated))
         /\ (Ended(e) => FncOk(cfg, s) /\ NAcked(s, FileNotCreated) >= Owed(cfg, s, FileNotCreated))
         /\ (Ended(e) /\ Undisturbed(cfg, s) => NAcked(s, Success) >= Owed(cfg, s, Success))
    [] a = "C14" ->
         /\ (e.op = "gotsig" => Len(s.got) < Len(s.sigs) /\ s.sigs[Len(s.got) + 1].s = e.s)
         /\ (e.op = "stall" => e.what \notin {"signal", "exit"})
         /\ (e.op = "rep" /\ SigRunning(cfg, s) => ~Verdict(e))
         /\ (New(s, e) /\ e.reason = Killed =>
               /\ e.killed
               /\ \/ e.kr = BySignal /\ s.sigs # <<>>
                  \* a limit that was reached first
                  \/ e.kr = ByTimeout /\ cfg.tk > 0 /\ (s.sigs = <<>> \/ s.sigs[1].t >= cfg.tk - cfg.jit)
                  \/ e.kr = ByMemory /\ OverMemory(cfg, s) /\ (s.sigs = <<>> \/ s.sigs[1].t >= s.memt))
         /\ Cardinality(Reports(n, Killed)) <= 1 /\ NAcked(n, Killed) <= 1
         /\ (e.op = "exit" => /\ (s.hello # None => s.gone # None)
                              /\ (SigRunning(cfg, s) => NAcked(s, Killed) = 1)
                              /\ OneEnd(cfg, s)
                              /\ e.code = 0
                              /\ AllDelivered(cfg, s))
    [] a = "C15" ->
         /\ (New(s, e) => IdentityOk(s, e) /\ MomentOk(cfg, s, e) /\ ClaimsOk(cfg, s, e) /\ MemoryOk(cfg, s, e))
         /\ (Ended(e) => \A reason \in {Success, Failure, Killed} : NAcked(s, reason) >= Owed(cfg, s, reason))
    [] a = "C16" ->
         /\ (e.op = "errrep" => ~cfg.noerr /\ ~e.private /\ ~cfg.calm)
         /\ (e.op = "errwait" => e.got)
         /\ OutOk(s, e)
         /\ (e.op = "exit" => AllOutOf(s, {"o", "e"} \ Elems(cfg.full)) /\ e.code = 0)
         /\ (e.op = "stall" => FALSE)
         /\ (e.op = "gone" => s.die # None)
         /\ (e.op = "exit" /\ ~cfg.lose => AllDelivered(cfg, [s EXCEPT !.out = [st \in {"o", "e"} |-> IF st \in Elems(cfg.full) THEN s.wr[st] ELSE s.out[st]]]))
         /\ (New(s, e) => TruthOk(cfg, s, e) /\ HistoryOk(cfg, s, e, "o", cfg.ho, e.o) /\ HistoryOk(cfg, s, e, "e", cfg.he, e.e))
    [] OTHER -> TRUE

SupStep(cfg, s, e) ==
  IF e.op = "panic" THEN {}
  ELSE LET n == Update(cfg, s, e)
       IN IF \A i \in 1..Len(cfg.asp) : Always(cfg.asp[i], cfg, s, e, n) THEN {n} ELSE {}
=============================================================================
