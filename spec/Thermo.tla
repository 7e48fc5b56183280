------------------------------- MODULE Thermo -------------------------------
(* How particles are spread over the cells of a lattice, and sums over them.   *)
(* A particle lies in the (possibly virtual) cell s, at f (in 1/FINE of a cell)   *)
(* from its lower corner.  Weights are in units of 1/W.                        *)
EXTENDS Integers, Sequences, FiniteSets, Lattice
W == 10000
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Sum(f) == SumTo(f, Len(f))
\* discrete smearing: a part for the own cell, the rest shared by the six neighbours; nothing beyond the border
Beyond(n, per, s, d, e) == ~per /\ (s[d] + e < 0 \/ s[d] + e >= n[d])
DiscreteW(n, per, big, s, x) ==
  IF ~per /\ ~Inside(n, s) THEN 0
  ELSE LET t == Image(n, s)
           small == (W - big) \div 6
       IN (IF x = t THEN big ELSE 0)
          + small * Cardinality({de \in D \X {-1, 1} : ~Beyond(n, per, t, de[1], de[2]) /\ Step(n, per, t, de[1], de[2]) = x})
\* triangular smearing: in each direction a triangle of half-width r (in 1/FINE of a cell) around the particle;
\* bounds of the weights, as positions are rounded
FINE == 10000
Tri(r, d) == IF d >= r THEN 0 ELSE ((((r - d) * W) \div r) * FINE) \div r
TriHi(r, d) == LET e == IF d > 0 THEN d - 1 ELSE 0 IN IF e >= r THEN 0 ELSE Tri(r, e) + 2
TriLo(r, d) == Tri(r, d + 1)
TriSum(T(_, _), r, n, per, s, f, x) ==           \* one direction; x the cell; all images of it
  LET dist(k) == Abs((x + k * n) * FINE + FINE \div 2 - (s * FINE + f))
  IN IF per THEN T(r, dist(-2)) + T(r, dist(-1)) + T(r, dist(0)) + T(r, dist(1)) + T(r, dist(2)) ELSE T(r, dist(0))
TriangularW(n, per, r, s, f, x) ==
  LET hi(d) == TriSum(TriHi, r, n[d], per, s[d], f[d], x[d])
      lo(d) == TriSum(TriLo, r, n[d], per, s[d], f[d], x[d])
      a == hi(1)
      b == IF a = 0 THEN 0 ELSE hi(2)
      c == IF b = 0 THEN 0 ELSE hi(3)
  IN IF c = 0 THEN <<0, 0>> ELSE <<(((lo(1) * lo(2)) \div W) * lo(3)) \div W, (((a * b) \div W + 1) * c) \div W + 1>>
Mid(w) == (w[1] + w[2]) \div 2
\* factor of a particle for a density type, in sixths
Factor(type, p) ==
  CASE type = "hadron" -> 6
    [] type = "baryon" -> 6 * p.b
    [] type = "baryonic isospin" -> IF p.b = 0 \/ p.i2 = 0 THEN 0 ELSE (6 * (2 * p.q - p.b - p.s)) \div p.i2
    [] type = "pion" -> IF p.pion THEN 6 ELSE 0
    [] type = "total isospin" -> 6 * (2 * p.q - p.b - p.s)    \* twice the third component
\* floor of the square root
RECURSIVE Root(_, _, _)
Root(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Root(x, m, hi) ELSE Root(x, lo, m)
Sqrt(x) == IF x <= 0 THEN 0 ELSE Root(x, 0, 46341)
\* bounds of the length of a current whose components are known up to e
Scale(j) == j[1] \div 15000 + 1
Square(j, k) == (j[1] \div k) * (j[1] \div k) - (Abs(j[2]) \div k) * (Abs(j[2]) \div k) - (Abs(j[3]) \div k) * (Abs(j[3]) \div k) - (Abs(j[4]) \div k) * (Abs(j[4]) \div k)
Slack(j, k, e) == 2 * (e \div k + 2) * (Abs(j[1]) \div k + Abs(j[2]) \div k + Abs(j[3]) \div k + Abs(j[4]) \div k + e \div k + 2)
LenLo(j, e) == LET k == Scale(j) IN Sqrt(Square(j, k) - Slack(j, k, e)) * k
LenHi(j, e) == LET k == Scale(j) IN (Sqrt(Square(j, k) + Slack(j, k, e)) + 1) * k
=============================================================================
