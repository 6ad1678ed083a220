------------------------------ MODULE MCNames ------------------------------
(* Names backed by shared or copied maps: the implementation's heap of maps *)
(* refines the independent names of Names.tla.                              *)
EXTENDS Names, FiniteSets, Json

CONSTANTS Keys, MaxNames, MaxOps, Gen, Mistake

VARIABLES s, heap, ref, h
vars == <<s, heap, ref, h>>
cfg == [keys |-> <<"k1", "k2">>]
Vals == {"", "v", "w"}

Init == s = <<>> /\ heap = <<>> /\ ref = <<>> /\ h = <<>>

Log(o) == h' = Append(h, o)

New(p) ==
  /\ Len(s) < MaxNames
  /\ s' = Append(s, [name |-> "n", md |-> Upsert(NoMd, p)])
  /\ heap' = Append(heap, Upsert(NoMd, p))
  /\ ref' = Append(ref, Len(heap) + 1)
  /\ Log([op |-> "new", i |-> 0, md |-> p])

From(i) ==
  /\ Len(s) < MaxNames
  /\ s' = Append(s, s[i])
  /\ heap' = IF Mistake = "shared" THEN heap ELSE Append(heap, heap[ref[i]])
  /\ ref' = Append(ref, IF Mistake = "shared" THEN ref[i] ELSE Len(heap) + 1)
  /\ Log([op |-> "from", i |-> i, md |-> <<>>])

Md(i, p) ==
  /\ s' = [s EXCEPT ![i].md = Upsert(@, p)]
  /\ heap' = [heap EXCEPT ![ref[i]] = IF Mistake = "replace" THEN Upsert(NoMd, p) ELSE IF Mistake = "first" THEN @ @@ Upsert(NoMd, p) ELSE Upsert(@, p)]
  /\ UNCHANGED ref
  /\ Log([op |-> "md", i |-> i, md |-> p])

Pairs == {<<>>} \cup {<<<<k, v>>>> : k \in Keys, v \in Vals}
Next ==
  /\ Len(h) < MaxOps
  /\ \/ \E p \in Pairs : New(p)
     \/ \E i \in 1..Len(s) : From(i)
     \/ \E i \in 1..Len(s), p \in Pairs : Md(i, p)
Spec == Init /\ [][Next]_vars

\* C44
Refines == \A i \in 1..Len(s) : s[i].md = heap[ref[i]]
Independent == \A i, j \in 1..Len(s) : ref[i] = ref[j] => i = j
Determined == \A i, j \in 1..Len(s) : s[i] = s[j] => Render(cfg, s[i]) = Render(cfg, s[j])
Distinguishes == \A i, j \in 1..Len(s) : s[i].md # s[j].md => Render(cfg, s[i]) # Render(cfg, s[j])
OnlyTouched == [][\A i \in 1..Len(s) : s'[i] # s[i] => h'[Len(h')].op = "md" /\ h'[Len(h')].i = i]_vars

GenView == <<s, heap, ref>>
Emit == Gen => PrintT("SCRIPT " \o ToJson([cfg |-> cfg, ops |-> h']))
=============================================================================
