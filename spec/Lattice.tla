------------------------------ MODULE Lattice -------------------------------
(* A rectangular lattice: n cells per direction, cells of (even) integer size  *)
(* c, origin o; periodic or not.  Positions are integers.                      *)
EXTENDS Integers, Sequences, FiniteSets
D == 1..3
Cells(n) == (0..n[1] - 1) \X (0..n[2] - 1) \X (0..n[3] - 1)
Size(n) == n[1] * n[2] * n[3]
Index(n, s) == s[1] + n[1] * (s[2] + n[2] * s[3])                \* 0-based
Coord(n, k) == <<k % n[1], (k \div n[1]) % n[2], k \div (n[1] * n[2])>>
Center(o, c, s) == <<o[1] + c[1] * s[1] + c[1] \div 2, o[2] + c[2] * s[2] + c[2] \div 2, o[3] + c[3] * s[3] + c[3] \div 2>>
\* the (possibly virtual) cell of a point and its image inside the lattice
Cell(o, c, r) == <<(r[1] - o[1]) \div c[1], (r[2] - o[2]) \div c[2], (r[3] - o[3]) \div c[3]>>
Image(n, s) == <<s[1] % n[1], s[2] % n[2], s[3] % n[3]>>
Inside(n, s) == \A d \in D : s[d] >= 0 /\ s[d] < n[d]
Belongs(n, o, c, per, r) == per \/ Inside(n, Cell(o, c, r))
\* indices of one direction whose centre is in [p - q, p + q] (closed) or [p - q, p + q) (open)
Lo(o, c, p, q) == -((-(p - q - o - c \div 2)) \div c)               \* ceil
HiOpen(o, c, p, q) == -((-(p + q - o - c \div 2)) \div c) - 1
HiClosed(o, c, p, q) == (p + q - o - c \div 2) \div c
Clip(per, n, lo, hi) == IF per THEN lo..hi ELSE {k \in lo..hi : k >= 0 /\ k < n}
RegionOpen(n, o, c, per, p, q) ==
  Clip(per, n[1], Lo(o[1], c[1], p[1], q[1]), HiOpen(o[1], c[1], p[1], q[1]))
  \X Clip(per, n[2], Lo(o[2], c[2], p[2], q[2]), HiOpen(o[2], c[2], p[2], q[2]))
  \X Clip(per, n[3], Lo(o[3], c[3], p[3], q[3]), HiOpen(o[3], c[3], p[3], q[3]))
RegionClosed(n, o, c, per, p, q) ==
  Clip(per, n[1], Lo(o[1], c[1], p[1], q[1]), HiClosed(o[1], c[1], p[1], q[1]))
  \X Clip(per, n[2], Lo(o[2], c[2], p[2], q[2]), HiClosed(o[2], c[2], p[2], q[2]))
  \X Clip(per, n[3], Lo(o[3], c[3], p[3], q[3]), HiClosed(o[3], c[3], p[3], q[3]))
\* the neighbour of a cell in one direction; at a border without periodicity the cell itself
Step(n, per, s, d, e) == LET k == s[d] + e
                         IN IF k >= 0 /\ k < n[d] THEN [s EXCEPT ![d] = k]
                            ELSE IF per THEN [s EXCEPT ![d] = k % n[d]] ELSE s
\* derivative in direction d, times twice the cell size; one-sided at a border without periodicity
Grad(n, per, v(_), s, d) ==
  IF per \/ (s[d] > 0 /\ s[d] < n[d] - 1) THEN v(Step(n, per, s, d, 1)) - v(Step(n, per, s, d, -1))
  ELSE 2 * (v(Step(n, per, s, d, 1)) - v(Step(n, per, s, d, -1)))
=============================================================================
