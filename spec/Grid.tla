-------------------------------- MODULE Grid --------------------------------
(* Iteration over the cells of the collision search grid: which pairs of cells  *)
(* are offered, and with which periodic image.  Explored for every number of    *)
(* cells up to Nmax per direction, normal and periodic.                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Nmax
VARIABLES n, periodic, s, offers
vars == <<n, periodic, s, offers>>
D == 1..3
Cells == n[1] * n[2] * n[3]
Index(v) == (v[3] * n[2] + v[2]) * n[1] + v[1]
Coord(k) == <<k % n[1], (k \div n[1]) % n[2], k \div (n[1] * n[2])>>
Zero == <<0, 0, 0>>
Neg(v) == <<-v[1], -v[2], -v[3]>>
\* an offer: cell a with cell b, a displaced by w box lengths; the same one seen from b has -w
Same(o) == {o, <<o[2], o[1], Neg(o[3])>>}
\* ---- the iteration as it is done cell by cell
\* normal: neighbours inside the grid with a larger index
NormalOffers(v) ==
  LET dz == IF v[3] = n[3] - 1 THEN {0} ELSE {0, 1}
      dd(c) == IF n[c] = 1 THEN {0} ELSE IF v[c] = 0 THEN {0, 1} ELSE IF v[c] = n[c] - 1 THEN {-1, 0} ELSE {-1, 0, 1}
      ds == {d \in dd(1) \X dd(2) \X dz : Index(d) > 0}
  IN {<<Index(v), Index(v) + Index(d), Zero>> : d \in ds}
\* periodic: the next layer upwards, all around in the plane; the search cell is moved to its image
Wrapped(c, x) == IF x < 0 THEN [i |-> n[c] - 1, w |-> 1, virt |-> n[c]]
                 ELSE IF x >= n[c] THEN [i |-> 0, w |-> -1, virt |-> -1]
                 ELSE [i |-> x, w |-> 0, virt |-> -2]
PeriodicOffers(v) ==
  LET ds == {-1, 0, 1} \X {-1, 0, 1} \X {0, 1}
      w(d, c) == Wrapped(c, v[c] + d[c])
      virt(d) == [c \in D |-> IF w(d, c).virt = -2 THEN v[c] ELSE w(d, c).virt]
      nb(d) == Index([c \in D |-> w(d, c).i])
      ok == {d \in ds : nb(d) > Index(virt(d))}
  IN {<<Index(v), nb(d), <<w(d, 1).w, w(d, 2).w, w(d, 3).w>>>> : d \in ok}
Init == /\ periodic \in BOOLEAN
        /\ n \in (1..Nmax) \X (1..Nmax) \X (1..Nmax) /\ (periodic => \A c \in D : n[c] >= 2)
        /\ s = 0 /\ offers = {}
Step == /\ s < Cells /\ s' = s + 1 /\ UNCHANGED <<n, periodic>>
        /\ LET new == IF periodic THEN PeriodicOffers(Coord(s)) ELSE NormalOffers(Coord(s))
           IN offers' = offers \cup new
Spec == Init /\ [][Step]_vars
\* ---- what it has to achieve
\* all (ordered) adjacent cells with the displacement that makes them adjacent
Adjacent == {<<a, b, w>> \in (0..Cells - 1) \X (0..Cells - 1) \X ((-1..1) \X (-1..1) \X (-1..1)) :
               /\ (periodic \/ w = Zero)
               /\ <<a, w>> # <<b, Zero>>
               /\ \A c \in D : LET d == Coord(b)[c] - (Coord(a)[c] + w[c] * n[c]) IN d \in -1..1}
\* never the same pair of cells twice in the same displacement
OnlyOnce == \A o \in offers : Cardinality(Same(o) \cap offers) = 1
OnlyNeighbours == offers \subseteq Adjacent
Complete == s = Cells => UNION {Same(o) : o \in offers} = Adjacent
=============================================================================
