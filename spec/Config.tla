------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* The configuration of the monitor (properties C12, C13): what a command  *)
(* line, with the configuration file that it names, means, and which ones  *)
(* are refused.                                                            *)
(*                                                                         *)
(* A command line is a sequence of arguments                               *)
(*   [t |-> "opt", name, form, v]   an option                              *)
(*   [t |-> "file", state, items]   -c FILE; state is "ok", "missing" or   *)
(*                                  "bad"; items are its keys, each        *)
(*                                  [name, list, vs]: vs is a sequence of  *)
(*                                  [form, v], of one value unless it is a *)
(*                                  list                                   *)
(* cfg.args is the command line, cfg.cmd the words after it, cfg.shell the *)
(* shell of the environment ("" if there is none), cfg.host the name of    *)
(* this computer.                                                          *)
(*                                                                         *)
(* The form of a value tells what its text looks like:                     *)
(*   "int" n          decimal number                                       *)
(*   "mem" n, u       decimal number with the unit K, M or G               *)
(*   "dur" parts      numbers with units of time                           *)
(*   "bool" b         one of the spellings of true or false                *)
(*   "text" s         text that is also a regular expression               *)
(*   "noregex" s      text that is not                                     *)
(*   "json" f, x      field:expression                                     *)
(*   "jsonnoregex" s  field:text that is not a regular expression          *)
(*   "addr" h, p      host:port                                            *)
(*   "exe" s          an executable; s is its path                         *)
(*   "noexe" s        no executable                                        *)
(*   "word" s         anything else (no number, no colon, ...)             *)
(*   "none"           the value is missing or null, or a map               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Ints == {"stdout-history", "stderr-history"}
Mems == {"memory-warn", "memory-kill"}
Durs == {"timeout-warn", "timeout-kill"}
Bools == {"no-notify-on-success", "no-notify-on-failure", "daemon", "insecure", "no-error-reports"}
Lists == {"rule", "rule-json", "creates"}
Names == Ints \cup Mems \cup Durs \cup Bools \cup Lists \cup {"id", "host", "shell"}
AnyText == {"int", "mem", "dur", "bool", "text", "noregex", "json", "jsonnoregex", "addr", "exe", "noexe", "word"}

\* the forms that an option accepts
Accepts(name) ==
  CASE name \in Ints -> {"int"}
    [] name \in Mems -> {"int", "mem"}
    [] name \in Durs -> {"dur"}
    [] name \in Bools -> {"bool"}
    \* without flags, only for the constructor
    [] name = "rule-quantity" -> {"int"}
    [] name = "rule-period" -> {"dur"}
    [] name = "rule" -> {"text"}
    [] name = "rule-json" -> {"json"}
    [] name = "creates" -> {"text"}
    [] name = "id" -> {"text"}
    [] name = "host" -> {"addr"}
    [] name = "shell" -> {"exe"}
    [] OTHER -> {}

OkItem(name, x) == x.form \in Accepts(name)
OkKey(k) == /\ k.name \in Names
            /\ k.list => k.name \in Lists
            /\ \A i \in 1..Len(k.vs) : OkItem(k.name, k.vs[i])
OkArg(a) == IF a.t = "opt" THEN a.name \in Names /\ OkItem(a.name, a)
            ELSE a.state = "ok" /\ \A i \in 1..Len(a.items) : OkKey(a.items[i])

--------------------------------------------------------------------------------
(* all values given for an option, in order *)
RECURSIVE OfKeys(_, _), Given(_, _)
OfKeys(ks, name) ==
  IF ks = <<>> THEN <<>>
  ELSE (IF ks[1].name = name THEN ks[1].vs ELSE <<>>) \o OfKeys(Tail(ks), name)
Given(args, name) ==
  IF args = <<>> THEN <<>>
  ELSE (IF args[1].t = "file" THEN OfKeys(args[1].items, name)
        ELSE IF args[1].name = name THEN <<args[1]>> ELSE <<>>) \o Given(Tail(args), name)

Range(q) == {q[i] : i \in 1..Len(q)}
Values(args, name) == Range(Given(args, name))

UnitOf(u) == CASE u = "K" -> 1 [] u = "M" -> 1000 [] u = "G" -> 1000000
MemOf(x) == IF x.form = "int" THEN x.v ELSE x.v.n * UnitOf(x.v.u)

\* a duration in seconds and nanoseconds
RECURSIVE DurOf(_)
DurOf(ps) ==
  IF ps = <<>> THEN [s |-> 0, ns |-> 0]
  ELSE LET r == DurOf(Tail(ps))
           n == ps[1].n
           add(s, ns) == [s |-> r.s + s + (r.ns + ns) \div 1000000000, ns |-> (r.ns + ns) % 1000000000]
       IN  CASE ps[1].u = "h" -> add(3600 * n, 0)
             [] ps[1].u = "m" -> add(60 * n, 0)
             [] ps[1].u = "s" -> add(n, 0)
             [] ps[1].u = "ms" -> add(n \div 1000, (n % 1000) * 1000000)
             [] ps[1].u = "us" -> add(n \div 1000000, (n % 1000000) * 1000)
             [] ps[1].u = "ns" -> add(0, n)

\* the possible values of an option that is not a list; conv turns a given value into its meaning
One(args, name, default, conv(_)) ==
  IF Values(args, name) = {} THEN {default} ELSE {conv(x) : x \in Values(args, name)}
Raw(x) == x.v
Switch(args, name) == LET b == {x.v : x \in Values(args, name)} IN IF b = {} THEN {FALSE} ELSE b
All(args, name, conv(_)) == LET g == Given(args, name) IN [i \in 1..Len(g) |-> conv(g[i])]

Refused(cfg) ==
  \/ \E i \in 1..Len(cfg.args) : ~OkArg(cfg.args[i])
  \/ Values(cfg.args, "id") = {} \/ (\E x \in Values(cfg.args, "id") : x.v = "")
  \/ cfg.shell = "" /\ Values(cfg.args, "shell") = {}
  \/ cfg.cmd = <<>>

\* whether the effective configuration f is one that the command line means
Means(cfg, f) ==
  LET a == cfg.args
      dur(x) == DurOf(x.v)
      Neg(S) == {~b : b \in S}
  IN  /\ f.id \in One(a, "id", "", Raw)
      /\ f.rules = All(a, "rule", Raw)
      /\ f.jrules = All(a, "rule-json", Raw)
      /\ f.creates = All(a, "creates", Raw)
      /\ f.so \in One(a, "stdout-history", 30, Raw)
      /\ f.se \in One(a, "stderr-history", 30, Raw)
      /\ f.success \in Neg(Switch(a, "no-notify-on-success"))
      /\ f.failure \in Neg(Switch(a, "no-notify-on-failure"))
      /\ f.daemon \in Switch(a, "daemon")
      /\ f.mw \in One(a, "memory-warn", 0, MemOf)
      /\ f.mk \in One(a, "memory-kill", 0, MemOf)
      /\ f.tw \in One(a, "timeout-warn", DurOf(<<>>), dur)
      /\ f.tk \in One(a, "timeout-kill", DurOf(<<>>), dur)
      /\ f.shell \in One(a, "shell", cfg.shell, Raw)
      /\ f.noerr \in Switch(a, "no-error-reports")
      /\ f.qty \in One(a, "rule-quantity", 0, Raw)
      /\ f.per \in One(a, "rule-period", DurOf(<<>>), dur)
      /\ f.hostname = cfg.hostname
      /\ f.addr.h = "?" \/ f.addr \in One(a, "host", [h |-> "https://report.lmkwtf.com", p |-> "443"], Raw)
      /\ f.tls = "?" \/ f.tls \in {IF b THEN "no" ELSE "yes" : b \in Switch(a, "insecure")}

--------------------------------------------------------------------------------
(* Observed events                                                           *)
(*  parse  the command line was parsed and handed to the constructor         *)
(*  run    the program was run with the command line                         *)
(*  new    the constructor was called with the options cfg.args (no files)   *)
Reported(cfg) ==
  Cardinality({i \in 1..Len(cfg.args) : ~OkItem(cfg.args[i].name, cfg.args[i])})
  + (IF \E i \in 1..Len(cfg.args) : cfg.args[i].name = "id" /\ cfg.args[i].v # "" THEN 0 ELSE 1)
  + (IF cfg.shell = "" /\ ~(\E i \in 1..Len(cfg.args) : cfg.args[i].name = "shell" /\ OkItem("shell", cfg.args[i])) THEN 1 ELSE 0)

ConfigInit(cfg) == {[x |-> 0]}
ConfigStep(cfg, s, e) ==
  CASE e.op = "parse" ->
         \* that the command is missing is noticed when it is to be run
         IF e.res = "ok" THEN IF ~Refused([cfg EXCEPT !.cmd = <<"x">>]) /\ Means(cfg, e.f) /\ e.cmd = cfg.cmd THEN {s} ELSE {}
         ELSE IF e.res = "refused" /\ Refused(cfg) /\ e.message THEN {s} ELSE {}
    [] e.op = "run" ->
         IF Refused(cfg) THEN IF e.exit > 0 /\ e.message /\ ~e.crash /\ ~e.started /\ e.contacts = 0 THEN {s} ELSE {}
         ELSE IF /\ ~e.crash /\ e.started /\ e.words = cfg.cmd
                 \* reports go where they should, in the way they should
                 /\ e.waited => e.contacts > 0 /\ e.tls \in {IF b THEN "no" ELSE "yes" : b \in Switch(cfg.args, "insecure")}
              THEN {s} ELSE {}
    [] e.op = "new" ->
         IF e.res = "ok" THEN IF Reported(cfg) = 0 /\ Means(cfg, e.f) THEN {s} ELSE {}
         ELSE IF e.res = "refused" /\ Reported(cfg) > 0 /\ e.n >= Reported(cfg) /\ e.message THEN {s} ELSE {}
    [] OTHER -> {}
=============================================================================
