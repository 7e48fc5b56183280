------------------------------ MODULE ThermoMC ------------------------------
(* All placements of up to K particles on small lattices: each particle is     *)
(* accounted for exactly once.  Particles are spread one after the other.      *)
EXTENDS Thermo, TLC
CONSTANTS N, K, F
VARIABLES n, per, mode, cells, left, total
vars == <<n, per, mode, cells, left, total>>
Modes == {[m |-> "d", big |-> b, r |-> 0] : b \in {4000, 10000}} \cup {[m |-> "t", big |-> 0, r |-> r] : r \in {10000, 20000}}
Init == /\ n \in (2..N) \X (2..N) \X {2} /\ per \in BOOLEAN /\ mode \in Modes
        /\ cells = [x \in Cells(n) |-> 0] /\ left = K /\ total = 0
Weight(s, f, x) == IF mode.m = "d" THEN DiscreteW(n, per, mode.big, s, x) ELSE Mid(TriangularW(n, per, mode.r, s, f, x))
Add(s, f, q) == /\ left > 0 /\ left' = left - 1
                /\ cells' = [x \in Cells(n) |-> cells[x] + q * Weight(s, f, x)]
                /\ total' = total + q
                /\ UNCHANGED <<n, per, mode>>
\* in a periodic lattice anywhere, otherwise everywhere but near the borders, or beyond them
Next == \E s \in (-1..N) \X (-1..N) \X (0..1), f \in F \X F \X {5000}, q \in {-1, 1} : Add(s, f, q)
Spec == Init /\ [][Next]_vars
RECURSIVE All(_)
All(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN cells[x] + All(S \ {x})
\* nothing is lost or counted twice in a periodic lattice
Conserved == per => Abs(All(Cells(n)) - total * W) <= 60 * (K - left)
\* and otherwise one particle never counts more than once
Bounded == ~per => Abs(All(Cells(n))) <= (W + 60) * (K - left)
=============================================================================
