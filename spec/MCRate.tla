-------------------------------- MODULE MCRate --------------------------------
(***************************************************************************)
(* All rates of a grid (every a/b * 10^e): the factor is finite, falls     *)
(* strictly with the rate, moves by the same amount for the same factor of *)
(* the rate, and the two distributions differ.  Every pair is one state;   *)
(* the grid is also the script for the code.                               *)
(***************************************************************************)
EXTENDS Rate, TLC, Json

CONSTANTS As, Es, Gen

EsQuick == {-300, -12, -3, -1, 0, 300}
EsLarge == {-306, -100, -12, -3, -2, -1, 0, 1, 6, 300}
EsAll == {-306, -300, -100, -30, -12, -6, -5, -4, -3, -2, -1, 0, 1, 2, 6, 100, 300}
Rates == {[kind |-> "rate", a |-> a, b |-> b, e |-> e] : a \in As, b \in As, e \in Es}

VARIABLES p, q
vars == <<p, q>>
Init == p \in Rates /\ q \in (IF Gen THEN {p} ELSE Rates)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Dists == {"ln", "p"}
Falls == \A d \in Dists : Less(p, q) => KOf(d, LogOf(p)) >= KOf(d, LogOf(q))
FallsStrictly == \A d \in Dists : LogOf(p) < LogOf(q) - 8200 => KOf(d, LogOf(p)) > KOf(d, LogOf(q))
\* the same step anywhere
Linear == \A d \in Dists, n \in {-3, 2, 7} :
            LET dp == KOf(d, LogOf(p) + n * Ln10) - KOf(d, LogOf(p))
                dq == KOf(d, LogOf(q) + n * Ln10) - KOf(d, LogOf(q))
            IN Abs(dp - dq) <= 3
Apart == LogOf(p) \in -20000000..0 => KOf("p", LogOf(p)) > KOf("ln", LogOf(p))
\* rates that are worth anything have limits worth anything
Positive == \A d \in Dists : LogOf(p) <= 0 => KOf(d, LogOf(p)) > 4000
\* the points of the calibration
Calibrated == \A d \in Dists, k \in 50..70 : Abs(KOf(d, A(d) + (B(d) \div 10) * k) - 100 * k) <= 1
Emit == Gen => PrintT("SCRIPT " \o ToJson([cfg |-> [x |-> 0], ops |-> <<[op |-> "k", r |-> p, dist |-> "ln"], [op |-> "k", r |-> p, dist |-> "p"]>>]))
=============================================================================
