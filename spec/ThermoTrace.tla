----------------------------- MODULE ThermoTrace -----------------------------
(* Runs with thermodynamic output: for each event the particles at each output *)
(* time (from the particle output), then what the lattice files, pictures and  *)
(* the file of sums or of one point say about that time.  All values are       *)
(* integrated over a cell and multiplied with the numbers of ensembles and     *)
(* test particles.                                                             *)
EXTENDS TraceLib, Thermo
VARIABLES i, run, ev, times, want, open
vars == <<i, run, ev, times, want, open>>
E == Trace[i]
Names(r) == {<<f, q>> : f \in {r.fmts[j] : j \in DOMAIN r.fmts}, q \in {r.qty[j] : j \in DOMAIN r.qty}}
Begin == /\ E.op = "run" /\ ~open /\ run' = [E EXCEPT !.lat = {E.lat[j] : j \in DOMAIN E.lat}, !.pq = {E.pq[j] : j \in DOMAIN E.pq}] /\ ev' = -1 /\ times' = <<>> /\ want' = <<>> /\ open' = TRUE
Event == /\ E.op = "event" /\ open /\ E.ev = ev + 1 /\ ev' = E.ev /\ times' = <<>> /\ want' = <<>> /\ UNCHANGED <<run, open>>
Weight(p, k) == CASE run.mode = "d" -> LET d == DiscreteW(run.n, run.per, run.big, p.c, Coord(run.n, k)) IN <<d, d>>
                  [] run.mode = "t" -> TriangularW(run.n, run.per, run.r, p.c, p.f, Coord(run.n, k))
                  [] run.mode = "g" -> <<p.g[k + 1], p.g[k + 1]>>
Counted(p) == ~run.part \/ p.nc > 0
\* for each component: the sum, its tolerance; x(p) the components of a particle, a(p) its factor in sixths, w(p) bounds of its weight
Total(Q, x(_), a(_), w(_)) ==
  LET U == SelectSeq(Q, LAMBDA p : Counted(p) /\ a(p) # 0 /\ w(p)[2] # 0)
      add(p, c) == ((((Mid(w(p)) * x(p)[c]) \div W) * a(p)) \div 6)
      err(p, c) == ((((w(p)[2] - w(p)[1]) \div 2 + 3) * Abs(x(p)[c])) \div W + 1) * ((Abs(a(p)) + 5) \div 6) + 3
  IN [v |-> [c \in DOMAIN x(Q[1]) |-> Sum([j \in DOMAIN U |-> add(U[j], c)])],
      e |-> [c \in DOMAIN x(Q[1]) |-> Sum([j \in DOMAIN U |-> err(U[j], c)])]]
None(k) == [v |-> [c \in 1..k |-> 0], e |-> [c \in 1..k |-> 0]]
V4(p) == p.v
T10(p) == p.t
Cur(P, a(_), w(_)) == IF P = <<>> THEN None(4) ELSE Total(P, V4, a, w)
Ten(P, a(_), w(_)) == IF P = <<>> THEN None(10) ELSE Total(P, T10, a, w)
Pos(p) == LET f == Factor(run.type, p) IN IF f > 0 THEN f ELSE 0
Neg(p) == LET f == Factor(run.type, p) IN IF f < 0 THEN f ELSE 0
Both(p) == Factor(run.type, p)
Q6(p) == 6 * p.q
B6(p) == 6 * p.b
S6(p) == 6 * p.s
AtCell(P, k) ==
  LET w(p) == Weight(p, k)
      h(p) == <<p.h[k + 1], p.h[k + 1]>>
  IN [jp |-> IF "rho_eckart" \in run.lat THEN Cur(P, Pos, w) ELSE None(4),
      jn |-> IF "rho_eckart" \in run.lat THEN Cur(P, Neg, w) ELSE None(4),
      t |-> IF "tmn" \in run.lat THEN Ten(P, Both, w) ELSE None(10),
      qbs |-> IF "j_QBS" \in run.lat THEN <<Cur(P, Q6, h), Cur(P, B6, h), Cur(P, S6, h)>> ELSE <<>>]
AtPoint(P) ==
  LET w(p) == IF run.smear THEN <<p.w, p.w>> ELSE <<W, W>>
  IN [jp |-> Cur(P, Pos, w), jn |-> Cur(P, Neg, w), t |-> Ten(P, Both, w), qbs |-> <<Cur(P, Q6, w), Cur(P, B6, w), Cur(P, S6, w)>>]
Block == /\ E.op = "block" /\ open /\ E.ev = ev
         /\ times' = Append(times, E.t)
         /\ want' = Append(want, [cells |-> IF run.lat = {} THEN <<>> ELSE [k \in 1..Size(run.n) |-> AtCell(E.parts, k - 1)],
                                  point |-> IF run.point THEN AtPoint(E.parts) ELSE <<>>])
         /\ UNCHANGED <<run, ev, open>>
\* a file of the lattice: its head, and the times of its blocks (pictures: one file per time)
File == /\ E.op = "file" /\ open /\ E.ev = ev /\ <<E.fmt, E.qty>> \in Names(run)
        /\ E.dims = run.n /\ E.spacing = run.spacing /\ E.origin = run.origin /\ E.head = run.type2 \o "_" \o E.qty
        /\ IF E.fmt = "v" THEN E.count = Len(times)
           ELSE Len(E.times) = Len(times) /\ \A k \in DOMAIN times : E.times[k] - times[k] \in -1..1
        /\ UNCHANGED <<run, ev, times, want, open>>
Near(x, y, e) == x - y \in -e..e
Row(r, s, tol) == \A c \in DOMAIN s.v : Near(r[c], s.v[c], s.e[c] + tol)
Cut(r, a, b) == [j \in 1..b - a + 1 |-> r[a + j - 1]]
Max(a, b) == IF a > b THEN a ELSE b
Rho(x, p, n, tol) ==
  LET ep == p.e[1] + 2
      en == n.e[1] + 2
      neg == [c \in 1..4 |-> -n.v[c]]
  IN /\ x >= LenLo(p.v, ep) - LenHi(neg, en) - tol - 2
     /\ x <= LenHi(p.v, ep) - LenLo(neg, en) + tol + 2
Values == /\ E.op = "values" /\ open /\ E.ev = ev /\ E.k \in DOMAIN want
          /\ LET C == want[E.k].cells
             IN /\ Len(E.x) = Size(run.n)
                /\ \A k \in DOMAIN E.x :
                     CASE E.qty = "rho_eckart" -> Rho(E.x[k][1], C[k].jp, C[k].jn, E.tol)
                       [] E.qty = "tmn" -> Row(E.x[k], C[k].t, E.tol)
                       [] E.qty = "j_QBS" -> \A z \in 1..3 : Row(Cut(E.x[k], 4 * z - 3, 4 * z), C[k].qbs[z], E.tol)
          /\ UNCHANGED <<run, ev, times, want, open>>
\* Landau frame: how far (in millionths) the tensor and velocity of each cell are from each other
Landau == /\ E.op = "landau" /\ open /\ E.ev = ev /\ E.k \in DOMAIN want /\ Len(E.x) = Size(run.n)
          /\ \A k \in DOMAIN E.x : E.x[k] <= E.tol
          /\ UNCHANGED <<run, ev, times, want, open>>
\* two files of the same content
Same == /\ E.op = "same" /\ open /\ Len(E.a) = Len(E.b) /\ \A k \in DOMAIN E.a : E.a[k] - E.b[k] \in -E.tol..E.tol
        /\ UNCHANGED <<run, ev, times, want, open>>
Point == /\ E.op = "point" /\ open /\ E.ev = ev /\ Len(E.rows) = Len(times)
         /\ \A k \in DOMAIN E.rows :
              LET r == E.rows[k]
                  p == want[k].point
              IN /\ r.time - times[k] \in -5001..5001
                 /\ ("tmn" \in run.pq => Row(r.tmn, p.t, 1))
                 /\ ("j_QBS" \in run.pq => \A z \in 1..3 : Row(Cut(r.j, 4 * z - 3, 4 * z), p.qbs[z], 1))
                 /\ ("rho_eckart" \in run.pq => Rho(r.rho, p.jp, p.jn, 1))
                 /\ r.landau <= 20
         /\ UNCHANGED <<run, ev, times, want, open>>
\* the names of all files of the output directory
Dir == /\ E.op = "dir" /\ open /\ E.evs = ev + 1 /\ {E.names[j] : j \in DOMAIN E.names} = {E.expected[j] : j \in DOMAIN E.expected}
       /\ open' = FALSE /\ UNCHANGED <<run, ev, times, want>>
Init == i = 1 /\ run = [n |-> <<1, 1, 1>>] /\ ev = -1 /\ times = <<>> /\ want = <<>> /\ open = FALSE
Next == i <= Len(Trace) /\ i' = i + 1 /\ (Begin \/ Event \/ Block \/ File \/ Values \/ Landau \/ Same \/ Point \/ Dir)
Spec == Init /\ [][Next]_vars
=============================================================================
