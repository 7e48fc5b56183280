---------------------------- MODULE LatticeTrace ----------------------------
(* Operations on a real lattice; lengths in 1/64 fm (exact in the code).       *)
EXTENDS TraceLib, Lattice
VARIABLES i, n, c, o, per, vals
vars == <<i, n, c, o, per, vals>>
E == Trace[i]
Set(s) == {s[k] : k \in DOMAIN s}
V(s) == vals[Index(n, s) + 1]
Keep == UNCHANGED <<n, c, o, per>>
Zeros(nn) == [k \in 1..Size(nn) |-> 0]
\* what the lattice reports about itself, and the conversions for all its cells
Shape == /\ E.n = n /\ E.c = c /\ E.o = o /\ E.per = per /\ E.l = [d \in D |-> n[d] * c[d]]
         /\ Len(E.cells) = Size(n)
         /\ \A k \in DOMAIN E.cells : LET s == Coord(n, k - 1) IN E.cells[k] = <<k - 1, Center(o, c, s), Center(o, c, s), V(s)>>
New == /\ E.op = "new" /\ n' = E.n /\ c' = E.c /\ o' = E.o /\ per' = E.per /\ vals' = Zeros(E.n)
       /\ E.res = "ok"
Bad == E.op = "bad" /\ E.res = "exception" /\ UNCHANGED <<n, c, o, per, vals>>
Look == E.op = "look" /\ Shape /\ UNCHANGED vals /\ Keep
Set1 == E.op = "set" /\ vals' = [vals EXCEPT ![E.k + 1] = E.v] /\ Keep
Fill == E.op = "fill" /\ vals' = E.v /\ Len(E.v) = Size(n) /\ Keep
Reset == E.op = "reset" /\ vals' = Zeros(n) /\ Keep
Resize == /\ E.op = "resize" /\ n' = E.n /\ c' = E.c /\ o' = E.o /\ UNCHANGED per /\ vals' = Zeros(E.n)
At == /\ E.op = "at" /\ UNCHANGED vals /\ Keep
      /\ LET b == Belongs(n, o, c, per, E.r) IN
           /\ E.found = b
           /\ E.v = IF b THEN V(Image(n, Cell(o, c, E.r))) ELSE 0
Node == /\ E.op = "node" /\ UNCHANGED vals /\ Keep
        /\ E.v = V(Image(n, E.s))
Bounds == /\ E.op = "bounds" /\ UNCHANGED vals /\ Keep
          /\ E.out = (~per /\ ~Inside(n, E.s))
\* visits: each visit has added 1000 to the cell it was given; E.seen are the coordinates handed out
Bump(S) == [k \in DOMAIN vals |-> vals[k] + 1000 * Cardinality({s \in S : Index(n, Image(n, s)) = k - 1})]
Sub == /\ E.op = "sub" /\ Keep
       /\ LET S == (E.lo[1]..E.hi[1] - 1) \X (E.lo[2]..E.hi[2] - 1) \X (E.lo[3]..E.hi[3] - 1)
          IN Set(E.seen) = S /\ Len(E.seen) = Cardinality(S) /\ vals' = Bump(S)
Region == /\ E.op = "region" /\ Keep
          /\ LET S == Set(E.seen)
             IN /\ Len(E.seen) = Cardinality(S)
                /\ RegionOpen(n, o, c, per, E.p, E.q) \subseteq S /\ S \subseteq RegionClosed(n, o, c, per, E.p, E.q)
                /\ vals' = Bump(S)
\* the cell of a point and its six neighbours; nothing beyond a border without periodicity
Neighbors == /\ E.op = "near" /\ Keep
             /\ LET v == Cell(o, c, E.p)
                    s == Image(n, v)
                    k == Index(n, s)
                    there == per \/ Inside(n, v)
                    gone(d, e) == ~per /\ (s[d] + e < 0 \/ s[d] + e >= n[d])
                IN /\ \A x \in Set(E.seen) : x[2] = k
                   /\ vals' = [j \in DOMAIN vals |-> vals[j] + 1000 * Cardinality({m \in DOMAIN E.seen : E.seen[m][1] = j - 1})]
                   \* how often each cell is visited
                   /\ \A m \in DOMAIN E.seen : E.seen[m][1] \in 0..Size(n) - 1
                   /\ \A j \in 0..Size(n) - 1 : Cardinality({m \in DOMAIN E.seen : E.seen[m][1] = j})
                        = IF ~there THEN 0
                          ELSE (IF j = k THEN 1 ELSE 0) + Cardinality({de \in D \X {-1, 1} : ~gone(de[1], de[2]) /\ Index(n, Step(n, per, s, de[1], de[2])) = j})
\* sum of the values over a region (integrated, divided by the cell volume)
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET s == CHOOSE x \in S : TRUE IN V(Image(n, s)) + Sum(S \ {s})
Integral == /\ E.op = "integral" /\ UNCHANGED vals /\ Keep
            /\ E.sum \in {Sum(S) : S \in {RegionOpen(n, o, c, per, E.p, E.q), RegionClosed(n, o, c, per, E.p, E.q)}}
Gradient == /\ E.op = "grad" /\ UNCHANGED vals /\ Keep
            /\ IF \E d \in D : n[d] < 2 THEN E.res = "exception"
               ELSE /\ E.res = "ok" /\ Len(E.g) = Size(n)
                    /\ \A k \in DOMAIN E.g : \A d \in D : E.g[k][d] = Grad(n, per, V, Coord(n, k - 1), d)
\* four-gradient: the time derivative of (value - old) and the space derivatives, each of a component that is a multiple of the value
FourGradient == /\ E.op = "grad4" /\ UNCHANGED vals /\ Keep
                /\ IF \E d \in D : n[d] < 2 THEN E.res = "exception"
                   ELSE /\ E.res = "ok" /\ Len(E.g) = Size(n)
                        /\ \A k \in DOMAIN E.g : LET s == Coord(n, k - 1) IN \A m \in 1..4 :
                              /\ E.g[k][1][m] = m * (V(s) - E.old[k])
                              /\ \A d \in D : E.g[k][d + 1][m] = m * Grad(n, per, V, s, d)
Same == /\ E.op = "same" /\ UNCHANGED vals /\ Keep
        /\ E.same = (E.n = n /\ E.c = c /\ E.o = o /\ E.per = per)
Init == i = 1 /\ n = <<1, 1, 1>> /\ c = <<2, 2, 2>> /\ o = <<0, 0, 0>> /\ per = FALSE /\ vals = <<0>>
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ (New \/ Look \/ Set1 \/ Fill \/ Reset \/ Resize \/ At \/ Node \/ Bounds \/ Sub \/ Region \/ Neighbors \/ Integral
            \/ Gradient \/ FourGradient \/ Same
            \/ Bad)
Spec == Init /\ [][Next]_vars
=============================================================================
