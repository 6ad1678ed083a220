-------------------------------- MODULE MCRng --------------------------------
(***************************************************************************)
(* The design: Knuth's algorithm multiplies uniform numbers until their    *)
(* product is not above the bound L = e^-lambda, and returns one less than *)
(* the numbers it took.  Uniform numbers are quarters, bounds quarters of  *)
(* quarters ...  What it returns is a possible Poisson number, it is 0     *)
(* whenever lambda is 0 (L = 1), and it is the number of factors that can  *)
(* be multiplied with the product still above L.                           *)
(***************************************************************************)
EXTENDS Rng, TLC

CONSTANTS Max, Mistake

VARIABLES L, us, done, k
vars == <<L, us, done, k>>

RECURSIVE Pow(_), Prod(_)
Pow(n) == IF n = 0 THEN 1 ELSE 4 * Pow(n - 1)
Prod(q) == IF q = <<>> THEN 1 ELSE Head(q) * Prod(Tail(q))
\* the product of q (in quarters) is above L (in units of 4^-Max)
Above(q) == Prod(q) * Pow(Max - Len(q)) > L

Init == L \in 1..Pow(Max) /\ us = <<>> /\ done = FALSE /\ k = -99
More == /\ ~done /\ Len(us) < Max
        /\ (us = <<>> /\ Mistake # "test first") \/ Above(us)
        /\ \E u \in 0..3 : us' = Append(us, u)
        /\ UNCHANGED <<L, done, k>>
Stop == /\ ~done
        /\ (us # <<>> \/ Mistake = "test first") /\ ~Above(us)
        /\ done' = TRUE
        /\ k' = IF Mistake = "one more" THEN Len(us) ELSE Len(us) - 1
        /\ UNCHANGED <<L, us>>
Next == More \/ Stop
Spec == Init /\ [][Next]_vars

Lam == IF L = Pow(Max) THEN 0 ELSE 5
Support == done => Possible([kind |-> "p", lam |-> Lam, den |-> 1], k)
Longest == done => /\ k \in 0..Max
                   /\ \A j \in 1..k : Above(SubSeq(us, 1, j))
                   /\ ~Above(SubSeq(us, 1, k + 1))
=============================================================================
