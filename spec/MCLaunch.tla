------------------------------ MODULE MCLaunch ------------------------------
(***************************************************************************)
(* The design: the command line is read from the left, a word that looks   *)
(* like an option belongs to monny until "--" is met, everything else is a *)
(* word of the command; the name is looked up; the process is started with *)
(* the context inherited; monny waits for it and ends.                     *)
(* A word is a sequence of letters, so that words can be joined and split. *)
(***************************************************************************)
EXTENDS Launch, TLC, TLCExt, SequencesExt, Json

CONSTANTS MaxLen, Mistake

\* letters: "a", " " and "-"
Alphabet == {<<>>, <<"a">>, <<"a", " ", "a">>, <<" ">>, <<"-">>, <<"-", "a">>, <<"-", "-">>}
Dashes == <<"-", "-">>
IsOption(w) == Len(w) > 1 /\ Head(w) = "-"

\* the words of the observer are compared, not looked into
Word(w) == FoldLeft(LAMBDA a, x : a \o x, "", w)

VARIABLES line,   \* what is given
          rest,   \* what is not read yet
          dash,   \* the separator was met
          words,  \* the words of the command so far
          pc, runs, ctx, bad, obs
vars == <<line, rest, dash, words, pc, runs, ctx, bad, obs>>

Lines == UNION {[1..k -> Alphabet] : k \in 1..MaxLen}
\* the documented forms: options among the words of the command only after the separator
Documented(q) == \/ Head(q) = Dashes /\ Len(q) > 1 /\ Len(q[2]) > 0 /\ ~IsOption(q[2])
                 \/ Len(Head(q)) > 0 /\ \A i \in 1..Len(q) : ~IsOption(q[i])

See(e) == /\ obs' = UNION {LaunchStep(s, e) : s \in obs}
          /\ bad' = (bad \/ obs' = {})

Init == /\ line \in {q \in Lines : Documented(q)} /\ rest = line /\ dash = FALSE /\ words = <<>>
        /\ pc = "read" /\ runs = 0 /\ ctx = "given" /\ bad = FALSE
        /\ obs = UNION {LaunchStep(s, [op |-> "given", line |-> [i \in 1..Len(line) |-> Word(line[i])], ctx |-> "given"]) : s \in LaunchInit}

Read ==
  /\ pc = "read" /\ rest # <<>>
  /\ rest' = Tail(rest)
  /\ LET w == Head(rest) IN
     CASE w = Dashes /\ (~dash \/ Mistake = "every separator") -> dash' = TRUE /\ words' = words
       [] IsOption(w) /\ (~dash \/ Mistake = "takes options") /\ w # Dashes -> dash' = dash /\ words' = words
       [] w = <<>> /\ Mistake = "drops empty" -> dash' = dash /\ words' = words
       [] OTHER -> dash' = dash /\ words' = Append(words, w)
  /\ UNCHANGED <<line, pc, runs, ctx, bad, obs>>

\* what a shell makes of words that are joined
RECURSIVE Split(_, _)
Split(q, w) == IF q = <<>> THEN (IF w = <<>> THEN <<>> ELSE <<w>>)
               ELSE IF Head(q) = " " THEN (IF w = <<>> THEN <<>> ELSE <<w>>) \o Split(Tail(q), <<>>)
               ELSE Split(Tail(q), Append(w, Head(q)))
Joined == FoldLeft(LAMBDA a, w : IF a = <<>> THEN w ELSE a \o <<" ">> \o w, <<>>, words)

Prepare ==
  /\ pc = "read" /\ rest = <<>>
  /\ pc' = "start"
  /\ words' = CASE Mistake = "shell" -> Split(Joined, <<>>)
                [] Mistake = "resolves" -> <<<<"a", "a">> \o words[1]>> \o Tail(words)
                [] OTHER -> words
  /\ ctx' = IF Mistake = "context" THEN "monny" ELSE ctx
  /\ UNCHANGED <<line, rest, dash, runs, bad, obs>>

\* whether the command succeeds is its own affair
Run ==
  /\ pc = "start" /\ (Mistake = "no run" => Len(words) < 3)
  /\ runs' = runs + 1
  /\ See([op |-> "run", words |-> [i \in 1..Len(words) |-> Word(words[i])], ctx |-> ctx, group |-> TRUE])
  /\ \/ pc' = "done"
     \/ pc' = "start" /\ Mistake = "again" /\ runs = 0
  /\ UNCHANGED <<line, rest, dash, words, ctx>>
Skip ==
  /\ pc = "start" /\ Mistake = "no run" /\ Len(words) >= 3
  /\ pc' = "done" /\ UNCHANGED <<line, rest, dash, words, runs, ctx, bad, obs>>

End ==
  /\ pc = "done" /\ pc' = "ended"
  /\ See([op |-> "end"])
  /\ UNCHANGED <<line, rest, dash, words, runs, ctx>>

Next == Read \/ Prepare \/ Run \/ Skip \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Conforms == ~bad
Once == pc = "ended" => runs = 1
Ends == <>(pc = "ended")

\* one script per line of words
Emit == IF pc = "ended" /\ Mistake = "" THEN PrintT("SCRIPT " \o ToJson([line |-> line])) ELSE TRUE
=============================================================================
