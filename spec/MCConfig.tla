------------------------------ MODULE MCConfig ------------------------------
(***************************************************************************)
(* How the monitor computes its configuration: every option is a function  *)
(* on the configuration; the options of the command line are applied in    *)
(* order, those of the configuration file in any order of its keys, at the *)
(* place where the file is named.  Every way to split a set of options     *)
(* between the command line and the file must lead to what Config says.    *)
(***************************************************************************)
EXTENDS Config, TLC, Json

CONSTANTS Pool, First, Gen, Mistake

VARIABLES place, head, todo, keys, conf, errs, ph

vars == <<place, head, todo, keys, conf, errs, ph>>

O(n, f, v) == [t |-> "opt", name |-> n, form |-> f, v |-> v]
MCPool == <<
  O("id", "text", "x"),
  O("rule", "text", "a"), O("rule", "text", "b"),
  O("rule-json", "json", [f |-> "f", x |-> "a"]),
  O("stdout-history", "int", 5),
  O("daemon", "bool", FALSE), O("insecure", "bool", TRUE),
  O("memory-kill", "mem", [n |-> 3, u |-> "M"]),
  O("timeout-warn", "dur", <<[n |-> 1, u |-> "m"], [n |-> 1500, u |-> "ms"]>>),
  O("creates", "text", "p"), O("creates", "text", "q"),
  O("host", "word", "nocolon"), O("nothing", "word", "x")>>
MCSmall == <<MCPool[1], MCPool[2], MCPool[3], MCPool[4], MCPool[6], MCPool[10], MCPool[12]>>
MCMiddle == MCSmall \o <<MCPool[8], MCPool[11]>>
MCOther == <<MCPool[1], MCPool[4], MCPool[5], MCPool[7], MCPool[8], MCPool[9], MCPool[13]>>

Where == {"no", "flag", "file"}

\* the keys of the file: one per name, with the values in order
FileNames == {Pool[i].name : i \in {j \in 1..Len(Pool) : place[j] = "file"}}
KeyOf(n) == LET q == SelectSeq([i \in 1..Len(Pool) |-> IF place[i] = "file" /\ Pool[i].name = n THEN i ELSE 0], LAMBDA i : i # 0)
            IN [name |-> n, list |-> Len(q) > 1, vs |-> [i \in 1..Len(q) |-> [form |-> Pool[q[i]].form, v |-> Pool[q[i]].v]]]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Flags == SelectSeq([i \in 1..Len(Pool) |-> IF place[i] = "flag" THEN Pool[i] ELSE [t |-> "none"]], LAMBDA x : x.t = "opt")
File == [t |-> "file", state |-> "ok", items |-> SeqOf({KeyOf(n) : n \in FileNames})]
\* the file is named before or after the options of the command line
Args == IF FileNames = {} THEN Flags ELSE IF head THEN <<File>> \o Flags ELSE Flags \o <<File>>
Cfg == [args |-> Args, cmd |-> <<"c">>, shell |-> "/s", hostname |-> "h"]

--------------------------------------------------------------------------------
Default == [id |-> "", rules |-> <<>>, jrules |-> <<>>, creates |-> <<>>, so |-> 30, se |-> 30, success |-> TRUE, failure |-> TRUE, daemon |-> FALSE,
            mw |-> 0, mk |-> 0, tw |-> DurOf(<<>>), tk |-> DurOf(<<>>), shell |-> "/s", noerr |-> FALSE, qty |-> 0, per |-> DurOf(<<>>), hostname |-> "h",
            addr |-> [h |-> "https://report.lmkwtf.com", p |-> "443"], tls |-> "yes"]

Apply(f, n, x) ==
  CASE n = "id" -> [f EXCEPT !.id = x.v]
    [] n = "rule" -> [f EXCEPT !.rules = IF Mistake = "lastrule" THEN <<x.v>> ELSE Append(@, x.v)]
    [] n = "rule-json" -> [f EXCEPT !.jrules = Append(@, x.v)]
    [] n = "creates" -> [f EXCEPT !.creates = Append(@, x.v)]
    [] n = "stdout-history" -> [f EXCEPT !.so = x.v]
    [] n = "daemon" -> IF x.v \/ Mistake = "bools" THEN [f EXCEPT !.daemon = TRUE] ELSE f
    [] n = "insecure" -> IF x.v THEN [f EXCEPT !.tls = "no"] ELSE f
    [] n = "memory-kill" -> [f EXCEPT !.mk = MemOf(x)]
    [] n = "timeout-warn" -> [f EXCEPT !.tw = DurOf(x.v)]
    [] OTHER -> f

Init == /\ place \in [1..Len(Pool) -> Where]
        /\ place[1] \in {"flag", "no"} \/ First
        /\ head \in BOOLEAN
        /\ todo = Args /\ keys = {} /\ conf = Default /\ errs = 0 /\ ph = "args"

Arg == /\ ph = "args" /\ keys = {} /\ todo # <<>>
       /\ LET a == Head(todo)
          IN IF a.t = "file" THEN keys' = Range(a.items) /\ UNCHANGED <<conf, errs>>
             ELSE IF OkArg(a) THEN conf' = Apply(conf, a.name, a) /\ UNCHANGED <<keys, errs>>
             ELSE errs' = (IF Mistake = "lenient" THEN errs ELSE errs + 1) /\ UNCHANGED <<conf, keys>>
       /\ todo' = Tail(todo)
       /\ UNCHANGED <<place, head, ph>>

RECURSIVE ApplyAll(_, _, _)
ApplyAll(f, n, vs) == IF vs = <<>> \/ (Mistake = "onevalue" /\ Len(vs) > 1) THEN f ELSE ApplyAll(Apply(f, n, vs[1]), n, Tail(vs))

Key == /\ keys # {}
       /\ \E k \in keys :
            /\ keys' = keys \ {k}
            /\ IF OkKey(k) THEN conf' = ApplyAll(conf, k.name, k.vs) /\ UNCHANGED errs
               ELSE errs' = (IF Mistake = "lenientfile" THEN errs ELSE errs + 1) /\ UNCHANGED conf
       /\ UNCHANGED <<place, head, todo, ph>>

Check == /\ ph = "args" /\ keys = {} /\ todo = <<>>
         /\ ph' = IF errs > 0 \/ (conf.id = "" /\ Mistake # "noid") THEN "refused" ELSE "accepted"
         /\ UNCHANGED <<place, head, todo, keys, conf, errs>>

Next == Arg \/ Key \/ Check
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
RightMeaning == ph = "accepted" => Means(Cfg, conf)
RightVerdict == /\ ph = "refused" => Refused(Cfg)
                /\ ph = "accepted" => ~Refused(Cfg)
Emit == Gen /\ ph = "args" /\ ph' # "args" => PrintT("ARGS " \o ToJson(Args))
=============================================================================
