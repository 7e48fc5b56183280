----------------------------- MODULE LatticeMC ------------------------------
(* All lattices up to a size, all points around them: cells tile the volume,   *)
(* indices convert without loss, visits touch the right cells once, a value    *)
(* written is read in its cell (and its images) and nowhere else.              *)
EXTENDS Lattice, TLC
CONSTANTS N, C, M
VARIABLES n, c, o, per, p, q, vals, w
vars == <<n, c, o, per, p, q, vals, w>>
Points(nn, cc, oo) == {r \in (oo[1] - M..oo[1] + nn[1] * cc[1] + M) \X (oo[2] - M..oo[2] + nn[2] * cc[2] + M) \X {oo[3], oo[3] + 1} : TRUE}
Init == /\ n \in (1..N) \X (1..N) \X (1..2) /\ c \in {<<a, b, 2>> : a \in C, b \in C} /\ o \in {<<0, 0, 0>>, <<-3, 2, -1>>} /\ per \in BOOLEAN
        /\ p \in Points(n, c, o) /\ q \in {<<1, 2, 1>>, <<3, 3, 2>>}
        /\ vals = [k \in 0..Size(n) - 1 |-> 0] /\ w = 0
\* write at the point, then visit the region (each visit adds 10)
Write == /\ w = 0 /\ w' = 1
         /\ vals' = IF Belongs(n, o, c, per, p) THEN [vals EXCEPT ![Index(n, Image(n, Cell(o, c, p)))] = 1] ELSE vals
         /\ UNCHANGED <<n, c, o, per, p, q>>
Visit == /\ w = 1 /\ w' = 2
         /\ vals' = [k \in DOMAIN vals |-> vals[k] + 10 * Cardinality({s \in RegionOpen(n, o, c, per, p, q) : Index(n, Image(n, s)) = k})]
         /\ UNCHANGED <<n, c, o, per, p, q>>
Next == Write \/ Visit
Spec == Init /\ [][Next]_vars
Abs(x) == IF x < 0 THEN -x ELSE x
Bijective == w = 0 => /\ \A s \in Cells(n) : Coord(n, Index(n, s)) = s /\ Index(n, s) \in 0..Size(n) - 1
                      /\ \A s \in Cells(n) : Cell(o, c, Center(o, c, s)) = s
\* the cells (of the lattice, and of its periodic continuation) that contain the point: exactly one
Tiling == w = 0 => Cardinality({s \in (-M..N + M) \X (-M..N + M) \X (-1..3) :
                                  \A d \in D : o[d] + c[d] * s[d] <= p[d] /\ p[d] < o[d] + c[d] * (s[d] + 1)}) = 1
OneCell == w = 1 => \A k \in DOMAIN vals : vals[k] = 1 <=> (Belongs(n, o, c, per, p) /\ Image(n, Cell(o, c, p)) = Coord(n, k))
\* a cell is touched once for each of its images whose centre is in the region
Touched == w = 2 => \A k \in DOMAIN vals :
             (vals[k] \div 10) =
             Cardinality({z \in (IF per THEN (-4..4) \X (-4..4) \X (-2..2) ELSE {<<0, 0, 0>>}) :
                            LET x == Center(o, c, Coord(n, k)) IN \A d \in D : LET y == x[d] + z[d] * n[d] * c[d]
                                                                             IN p[d] - q[d] <= y /\ y < p[d] + q[d]})
=============================================================================
