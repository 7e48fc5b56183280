----------------------------- MODULE InitialTrace ------------------------------
(* Initial states prepared by the real modi.  Numbers are multiples of 1e-9 of  *)
(* any width (BigInt); a four-vector is <<t, x, y, z>>.                         *)
EXTENDS TraceLib, BigInt, Initial
VARIABLES i, x, n            \* position, expectation, number of the event
vars == <<i, x, n>>
E == Trace[i]
\* names what does not hold
Ck(w, c) == c \/ (PrintT(<<"BROKEN", i, w>>) /\ FALSE)
Zero == <<0>>
Unit == BMul(BI(100000), BI(10000))
Sq(a) == BMul(a, a)
\* a = b up to relative rounding (1e-7 of the size s) 
Tol(s) == BAdd(BFloorDiv(BAbs(s), BI(10000000)), BI(5))
Close(a, b, s) == BLeq(BAbs(BSub(a, b)), Tol(s))
Near(a, b, d) == BLeq(BAbs(BSub(a, b)), d)
RECURSIVE SumS(_, _)
SumS(s, k) == IF k = 0 THEN Zero ELSE BAdd(s[k], SumS(s, k - 1))
SumF(s, F(_)) == SumS([k \in DOMAIN s |-> F(s[k])], Len(s))
Sum(s, c) == SumF(s, LAMBDA p : p.p[c])
SumR(s, c) == SumF(s, LAMBDA p : p.r[c])
Mass(s) == SumF(s, LAMBDA p : p.pole)
OfPdg(s, q) == Len(SelectSeq(s, LAMBDA p : p.pdg = q))
RECURSIVE Total(_)
Total(w) == IF w = <<>> THEN 0 ELSE Head(w)[2] + Total(Tail(w))
\* exactly the requested content
Content(s, want) == Len(s) = Total(want) /\ \A k \in DOMAIN want : OfPdg(s, want[k][1]) = want[k][2]
P3(p) == BAdd(Sq(p.p[2]), BAdd(Sq(p.p[3]), Sq(p.p[4])))
\* on shell, up to the rounding of the recorded energy and momenta
OnShell(p) == LET e2 == Sq(p.p[1]) IN Near(BSub(e2, P3(p)), Sq(p.pole), BAdd(BMul(BI(6), BAbs(p.p[1])), Tol(Sq(p.pole))))
\* nothing has happened to a particle yet
Fresh(p, t0) == p.r[1] = t0 /\ p.f = t0 /\ p.n = 0 /\ p.proc = 0 /\ p.xs = Unit
-----------------------------------------------------------------------------
\* requested energy: X is the product of the total momenta of the nuclei with energies and masses per number of
\* test particles scaled alike
EnergyOf(X, Na, Nb, Ma, Mb) ==
  LET e1 == x.e[1]
      e2 == IF Len(x.e) = 2 THEN x.e[2] ELSE Zero
      ab == BMul(Na, Nb)
  IN CASE x.opt = 1 -> LET l == BMul(BMul(BI(2), X), ab)
                           r == BSub(BMul(Sq(e1), Sq(ab)), BAdd(BMul(Sq(Ma), Sq(Nb)), BMul(Sq(Mb), Sq(Na)))) IN Close(l, r, l)
       [] x.opt = 2 -> Close(X, BMul(BMul(e1, Na), Mb), X)
       [] x.opt = 3 -> Close(X, BMul(BAdd(BMul(e1, Na), Ma), Mb), X)
       [] x.opt = 4 -> Close(Sq(X), BMul(BAdd(Sq(BMul(e1, Na)), Sq(Ma)), Sq(Mb)), Sq(X))
       [] OTHER -> LET q1 == IF x.opt = 6 THEN BAdd(BMul(e1, Na), Ma) ELSE BMul(e1, Na)
                       q2 == IF x.opt = 6 THEN BAdd(BMul(e2, Nb), Mb) ELSE BMul(e2, Nb)
                       d == BSub(X, BMul(q1, q2))          \* the product of what is not given
                       s == IF x.opt = 7 THEN 1 ELSE -1
                       o1 == IF s = 1 THEN BAdd(Sq(q1), Sq(Ma)) ELSE BSub(Sq(q1), Sq(Ma))
                       o2 == IF s = 1 THEN BAdd(Sq(q2), Sq(Mb)) ELSE BSub(Sq(q2), Sq(Mb))
                   IN BLeq(Zero, BAdd(d, Tol(X))) /\ Close(Sq(d), BMul(o1, o2), BMul(X, X))
\* nucleon-nucleon energy: s Na^2 Nb^2 = Ma^2 Nb^2 + Mb^2 Na^2 + 2 X Na Nb
PairEnergy(s, X, Na, Nb, Ma, Mb) ==
  LET l == BMul(Sq(s), Sq(BMul(Na, Nb)))
      r == BAdd(BAdd(BMul(Sq(Ma), Sq(Nb)), BMul(Sq(Mb), Sq(Na))), BMul(BMul(BI(2), X), BMul(Na, Nb))) IN Close(l, r, l)
\* all nucleons of a nucleus without Fermi motion have one velocity, along the beam
OneVelocity(s, d) == \A k \in DOMAIN s : /\ s[k].p[2] = Zero /\ s[k].p[3] = Zero
                                         /\ Close(BMul(s[k].p[4], s[1].pole), BMul(s[1].p[4], s[k].pole), BMul(s[k].p[1], s[1].pole))
                                         /\ BLeq(Zero, IF d = 1 THEN s[k].p[4] ELSE BNeg(s[k].p[4]))
\* a and b are the total momenta of nuclei without Fermi motion; the errors of sums grow with the number of particles
Frame(a, b, k) ==
  CASE x.frame = "center of mass" -> Near(BAdd(a[4], b[4]), Zero, BAdd(BI(k), Tol(a[1])))
    [] x.frame = "center of velocity" -> Near(BMul(a[4], b[1]), BNeg(BMul(b[4], a[1])), BAdd(BMul(BI(k), BAdd(a[1], b[1])), Tol(BMul(a[1], b[1]))))
    [] OTHER -> b[4] = Zero
\* a sum of momenta moves with the velocity of a reference particle
MovesWith(a, ref, k) == /\ Near(a[2], Zero, BI(k)) /\ Near(a[3], Zero, BI(k))
                        /\ Near(BMul(a[4], ref.p[1]), BMul(ref.p[4], a[1]), BAdd(BMul(BI(k), BAdd(a[1], ref.p[1])), Tol(BMul(a[1], ref.p[1]))))
\* the centre of a nucleus in the beam direction: z = N * place - sign (r + d) / gamma, with 1 / gamma = m / E
Place(s, ref, rd, base, sgn) ==      \* base = place * E of the reference
  LET N == BI(Len(s))
      l == BMul(SumR(s, 4), ref.p[1])
      r == BMul(N, BAdd(base, BMul(BI(sgn), BMul(rd, ref.pole))))
  IN Near(l, r, BAdd(BMul(BMul(N, ref.p[1]), BI(20)), BAdd(Tol(l), Tol(BMul(N, base)))))
\* distances from the centre, in the rest frame of the nucleus; m2: squared, times N^2 m^2
Centre(s) == <<SumR(s, 2), SumR(s, 3), SumR(s, 4)>>
Rel(s, ctr, c, k) == BSub(BMul(BI(Len(s)), s[k].r[c + 1]), ctr[c])
Vec(s, ref, ctr, k) == <<BMul(Rel(s, ctr, 1, k), ref.pole), BMul(Rel(s, ctr, 2, k), ref.pole), BMul(Rel(s, ctr, 3, k), ref.p[1])>>
RECURSIVE VecsTo(_, _, _, _)
VecsTo(s, ref, ctr, k) == IF k = 0 THEN <<>> ELSE Append(VecsTo(s, ref, ctr, k - 1), Vec(s, ref, ctr, k))
Vecs(s, ref) == LET ctr == Centre(s) IN VecsTo(s, ref, ctr, Len(s))
Dot(a, b) == BAdd(BMul(a[1], b[1]), BAdd(BMul(a[2], b[2]), BMul(a[3], b[3])))
Cross(a, b) == <<BSub(BMul(a[2], b[3]), BMul(a[3], b[2])), BSub(BMul(a[3], b[1]), BMul(a[1], b[3])), BSub(BMul(a[1], b[2]), BMul(a[2], b[1]))>>
Minus(a, b) == <<BSub(a[1], b[1]), BSub(a[2], b[2]), BSub(a[3], b[3])>>
Hard(s, ref, rad) == LET lim == BMul(BMul(BI(2 * Len(s)), BAdd(rad, BI(20))), ref.pole)
                         vs == Vecs(s, ref)
                     IN \A k \in DOMAIN s : BLeq(Dot(vs[k], vs[k]), Sq(lim))
\* nucleons from a file: types line by line, and places up to a rotation and a shift
File(s, ref, nuc, k) ==
  LET f == nuc.lines
      ls == LinesOf(k, Len(s), Len(f))
      N == BI(Len(s))
      g0 == [j \in 1..Len(s) |-> f[ls[j]]]
      tot == <<SumF(g0, LAMBDA l : l[1]), SumF(g0, LAMBDA l : l[2]), SumF(g0, LAMBDA l : l[3])>>
      Given1(j, c) == BMul(BSub(BMul(N, f[ls[j]][c]), tot[c]), ref.pole)
      Given(j) == <<Given1(j, 1), Given1(j, 2), Given1(j, 3)>>
      vs == Vecs(s, ref)
      V(j) == vs[j]
      \* N m times 3 fm, squared, at 1e-6
      sc == Sq(BMul(BMul(N, ref.pole), BMul(BI(3), Unit)))
      eps == BFloorDiv(BMul(sc, ref.p[1]), BMul(BI(1000000), ref.pole))
  IN /\ \A j \in DOMAIN s : s[j].pdg = f[ls[j]][4]
     /\ \A j \in DOMAIN s : LET v == V(j)  g == Given(j) IN Near(Dot(v, v), Dot(g, g), eps)
     /\ \A j \in 2..Len(s) : LET d == Minus(V(j), V(j - 1))  g == Minus(Given(j), Given(j - 1)) IN Near(Dot(d, d), Dot(g, g), eps)
     /\ \A j \in 4..Len(s) : LET d == Dot(V(j), Cross(V(j - 1), V(j - 2)))  g == Dot(Given(j), Cross(Given(j - 1), Given(j - 2)))
                             IN Near(d, g, BMul(eps, BMul(BMul(N, ref.pole), BMul(BI(10), Unit))))
-----------------------------------------------------------------------------
\* tuples, as functions are evaluated anew at each use
Labelled(l) == <<SelectSeq(l, LAMBDA p : p.own = 1), SelectSeq(l, LAMBDA p : p.own = 2)>>
Collision(c) ==
  LET l == c.ps
      s == Labelled(l)
      ra == E.ref[1]  rb == E.ref[2]
      ka == Len(s[1])  kb == Len(s[2])
      off == x.fermi = "off"
      a == <<Sum(s[1], 1), Sum(s[1], 2), Sum(s[1], 3), Sum(s[1], 4)>>
      b == <<Sum(s[2], 1), Sum(s[2], 2), Sum(s[2], 3), Sum(s[2], 4)>>
      Ma == Mass(s[1])  Mb == Mass(s[2])
      X == BSub(BMul(a[1], b[1]), BMul(a[4], b[4]))
      \* twice the sum of the transverse places, in units of b N
      tx == SumR(s[1], 2)  ty == SumR(s[1], 3)  ux == SumR(s[2], 2)  uy == SumR(s[2], 3)
      eA == BI(20 * ka)  eB == BI(20 * kb)
  IN /\ Ck("content", Content(s[1], x.nuc[1].want) /\ Content(s[2], x.nuc[2].want) /\ ka + kb = Len(l))
     /\ Ck("shell", \A k \in DOMAIN l : OnShell(l[k]))
     /\ Ck("fresh", \A k \in DOMAIN l : Fresh(l[k], c.start))
     \* momenta
     /\ IF off THEN /\ Ck("velocity", OneVelocity(s[1], 1) /\ OneVelocity(s[2], -1))
                    /\ Ck("energy", EnergyOf(X, BI(ka), BI(kb), Ma, Mb))
                    /\ Ck("frame", Frame(a, b, ka + kb))
                    /\ Ck("pair energy", ~Has(c, "sqrtsnn") \/ PairEnergy(c.sqrtsnn, X, BI(ka), BI(kb), Ma, Mb))
        ELSE Ck("moves", MovesWith(a, ra, 20 * ka) /\ MovesWith(b, rb, 20 * kb))
     /\ Ck("beam", x.fermi = "frozen" => /\ Near(BMul(c.va, ra.p[1]), BMul(ra.p[4], Unit), BAdd(BMul(BI(3), ra.p[1]), Unit))
                               /\ Near(BMul(c.vb, rb.p[1]), BMul(rb.p[4], Unit), BAdd(BMul(BI(3), rb.p[1]), Unit)))
     \* start time: the projectile needs until time 0 for half of the initial distance
     /\ Ck("start", LET w == BMul(BMul(BI(2), c.start), ra.p[4]) IN Near(BNeg(w), BMul(x.D, ra.p[1]), BAdd(Tol(w), BMul(BI(4), BAdd(ra.p[4], BAbs(c.start))))))
     \* the nuclei touch at time 0 in the beam direction
     /\ Ck("place 1", x.nuc[1].rd # <<>> => Place(s[1], ra, x.nuc[1].rd, BFloorDiv(BMul(BNeg(x.D), ra.p[1]), BI(2)), -1))
     /\ Ck("place 2", x.nuc[2].rd # <<>> => Place(s[2], rb, x.nuc[2].rd, BMul(c.start, rb.p[4]), 1))
     \* impact parameter
     /\ Ck("range", BLeq(BSub(x.lo, BI(2)), c.b) /\ BLeq(c.b, BAdd(x.hi, BI(2))))
     /\ Ck("impact", IF x.plane THEN LET q == BMul(BI(4), BAdd(Sq(tx), Sq(ty)))  r == Sq(BMul(c.b, BI(ka)))
                        IN Near(q, r, BAdd(Tol(r), BMul(BMul(BI(100), eA), BAdd(eA, BMul(c.b, BI(ka))))))
                   ELSE Near(BMul(BI(2), tx), BMul(c.b, BI(ka)), eA) /\ Near(ty, Zero, eA))
     /\ Ck("opposite", Near(BMul(tx, BI(kb)), BNeg(BMul(ux, BI(ka))), BI(20 * ka * kb)) /\ Near(BMul(ty, BI(kb)), BNeg(BMul(uy, BI(ka))), BI(20 * ka * kb)))
     \* places inside the nuclei
     /\ \A o \in 1..2 : /\ Ck("hard", x.nuc[o].hard # <<>> => Hard(s[o], E.ref[o], x.nuc[o].hard))
                        /\ Ck("file", x.nuc[o].kind = "custom" => File(s[o], E.ref[o], x.nuc[o], Turn(o, n, x.same)))
     \* the time the nuclei need to pass each other: (ra + rb) 2 m / sqrt(s - 4 m^2), m = 0.938
     /\ Ck("passing", Has(c, "pass") /\ x.nuc[1].r # <<>> /\ x.nuc[2].r # <<>> =>
          LET m2 == BMul(BI(1876), BI(1000000))
              g == BSub(Sq(c.sqrtsnn), Sq(m2))
              q == Sq(BMul(BAdd(x.nuc[1].r, x.nuc[2].r), m2))
          IN BLess(g, BMul(Unit, BI(100000000))) \/ Near(BMul(Sq(c.pass), g), q, BAdd(BFloorDiv(q, BI(100000)), BMul(BMul(BI(10), BAdd(c.pass, BI(10))), g))))
-----------------------------------------------------------------------------
\* boxes and spheres
JetOK(p, j) == /\ p.pdg = j[1] /\ Near(p.p[2], j[2], BI(2)) /\ p.p[3] = Zero /\ p.p[4] = Zero
               /\ \A c \in 1..3 : Near(p.r[c + 1], j[3][c], BI(2))
MediumOK(c) ==
  LET l == c.ps
      nj == Len(x.jets)
      s == SubSeq(l, 1, Len(l) - nj)
  IN /\ Ck("enough", Len(l) >= nj)
     /\ Ck("start", c.start = x.t0)
     /\ Ck("content", (~x.thermal => Content(s, x.want)))
     /\ Ck("fresh", \A k \in DOMAIN l : Fresh(l[k], x.t0) /\ l[k].own = 0)
     /\ Ck("shell", \A k \in DOMAIN s : (x.widths \/ OnShell(s[k])))
     /\ Ck("jets", \A k \in 1..nj : OnShell(l[Len(s) + k]) /\ JetOK(l[Len(s) + k], x.jets[k]))
     /\ Ck("momentum", \A q \in 2..4 : Near(Sum(s, q), Zero, BI(2 * Len(s) + 10)))
     /\ Ck("inside", \A k \in DOMAIN s : IF x.mode = "Box" THEN \A q \in 2..4 : BLeq(Zero, s[k].r[q]) /\ BLeq(s[k].r[q], x.size)
                            ELSE BLeq(BAdd(Sq(s[k].r[2]), BAdd(Sq(s[k].r[3]), Sq(s[k].r[4]))), Sq(BAdd(x.size, BI(5)))))
-----------------------------------------------------------------------------
\* whether a nucleus from a file can be taken: the lines have to give the requested numbers
FileFits(side, k) == LET nuc == x.nuc[side]
                         ls == LinesOf(k, Total(nuc.want), Len(nuc.lines))
                     IN nuc.kind # "custom" \/ \A w \in DOMAIN nuc.want :
                          Len(SelectSeq(ls, LAMBDA q : nuc.lines[q][4] = nuc.want[w][1])) = nuc.want[w][2]
SetupFits == LET y == E.exp IN y.mode # "Collider" \/
               \A o \in 1..2 : LET nuc == y.nuc[o]
                                   ls == LinesOf(Turn(o, 0, y.same), Total(nuc.want), Len(nuc.lines))
                               IN nuc.kind # "custom" \/ \A w \in DOMAIN nuc.want :
                                    Len(SelectSeq(ls, LAMBDA q : nuc.lines[q][4] = nuc.want[w][1])) = nuc.want[w][2]
Setup == /\ E.op = "setup"
         /\ x' = E.exp /\ n' = 0
         /\ E.ctor = (IF E.exp.ok = "ok" /\ SetupFits THEN "ok" ELSE "refused")
Event == /\ E.op = "event"
         /\ n' = n + 1 /\ UNCHANGED x
         /\ IF x.mode = "Collider" THEN
              (IF ~(FileFits(1, Turn(1, n, x.same)) /\ FileFits(2, Turn(2, n, x.same)))
               THEN E.c.res = "refused" ELSE E.c.res = "ok" /\ Collision(E.c))
            ELSE (E.c.res = "refused" /\ x.may) \/ (E.c.res = "ok" /\ MediumOK(E.c))
Init == i = 1 /\ x = <<>> /\ n = 0
Next == i <= Len(Trace) /\ i' = i + 1 /\ (Setup \/ Event)
Spec == Init /\ [][Next]_vars
=============================================================================
