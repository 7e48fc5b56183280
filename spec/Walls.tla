------------------------------- MODULE Walls --------------------------------
(* Particles in a periodic box, on an integer lattice: each time the earliest  *)
(* wall on the straight path is announced and crossed, one wall at a time.     *)
(* The position without walls ("unrolled") is kept as history.                 *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS L, T, Vmax
VARIABLES x, v, t, u, n, done
vars == <<x, v, t, u, n, done>>
D == 1..3
Init == /\ x \in [D -> 0..L] /\ v \in [D -> -Vmax..Vmax] /\ t = 0 /\ u = x /\ n = [c \in D |-> 0] /\ done = FALSE
        \* a particle on a wall moving outwards crosses at once, one moving inwards stays
\* time until the wall of a direction, in units of 1/(product of speeds): exact comparison by cross multiplication
Speed(c) == IF v[c] < 0 THEN -v[c] ELSE v[c]
Dist(c) == IF v[c] > 0 THEN L - x[c] ELSE x[c]
Moving == {c \in D : v[c] # 0}
\* lattice version: the particle stops at integer times only, so walls are reached exactly when Dist is a multiple of the speed;
\* velocities are restricted to -1, 0, 1 for that
Earliest == {c \in Moving : \A d \in Moving : Dist(c) <= Dist(d)}
Cross == /\ ~done /\ \E c \in Earliest :
              /\ t + Dist(c) < T
              /\ t' = t + Dist(c)
              /\ x' = [d \in D |-> IF d = c THEN (IF v[c] > 0 THEN 0 ELSE L) ELSE x[d] + v[d] * Dist(c)]
              /\ u' = [d \in D |-> u[d] + v[d] * Dist(c)]
              /\ n' = [n EXCEPT ![c] = @ + (IF v[c] > 0 THEN 1 ELSE -1)]
         /\ UNCHANGED <<v, done>>
Finish == /\ ~done /\ (\A c \in Moving : t + Dist(c) >= T)
          /\ LET dt == T - t IN x' = [d \in D |-> x[d] + v[d] * dt] /\ u' = [d \in D |-> u[d] + v[d] * dt]
          /\ t' = T /\ done' = TRUE /\ UNCHANGED <<v, n>>
Next == Cross \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Inside == \A c \in D : x[c] \in 0..L
Image == \A c \in D : u[c] = x[c] + n[c] * L
Progress == <>done
=============================================================================
