------------------------------ MODULE HyperTrace ------------------------------
(* Particles reaching the surface of constant proper time, as found by the     *)
(* real code and as recorded in real runs.  Numbers are multiples of 1e-9 of   *)
(* any width (BigInt).                                                         *)
EXTENDS TraceLib, BigInt
VARIABLES i
E == Trace[i]
Zero == <<0>>
Unit == BMul(BI(100000), BI(10000))
S(t, z) == BSub(BMul(t, t), BMul(z, z))
\* what is left undecided next to the surface: 1e-4 fm^2
M == BMul(Unit, BI(100000))
Pos(a) == BLess(Zero, a)
Tau2 == BMul(E.tau, E.tau)
\* beyond the surface for sure / possibly
BeyondSure(t, z) == Pos(t) /\ BLess(BAdd(Tau2, M), S(t, z))
BeyondMaybe(t, z) == Pos(t) /\ BLess(BSub(Tau2, M), S(t, z))
CrossSure(t0, z0, t1, z1) == BeyondSure(t1, z1) /\ ~BeyondMaybe(t0, z0)
CrossMaybe(t0, z0, t1, z1) == BeyondMaybe(t1, z1) /\ ~BeyondSure(t0, z0)
On(t, z) == BLeq(BAbs(BSub(S(t, z), Tau2)), M)
\* kinematic cuts: |y| <= Y is |pz| <= E tanh Y; p is [E, px, py, pz]; a cut of zero is none
Slack(a) == BAdd(BFloorDiv(BAbs(a), BI(1000000)), BI(10))
Rap(p, d) == LET l == BMul(BAbs(p[4]), Unit)  r == BMul(p[1], E.tanhy) IN BLeq(l, IF d > 0 THEN BAdd(r, Slack(r)) ELSE BSub(r, Slack(r)))
PT(p, d) == LET l == BAdd(BMul(p[2], p[2]), BMul(p[3], p[3]))  r == BMul(E.ptcut, E.ptcut) IN BLeq(l, IF d > 0 THEN BAdd(r, Slack(r)) ELSE BSub(r, Slack(r)))
Passes(p, d) == (E.tanhy # Zero => Rap(p, d)) /\ (E.ptcut # Zero => PT(p, d))
Path(v, dt) == BFloorDiv(BMul(v, dt), Unit)
\* a search, or several searches of consecutive intervals, for one particle
Find == /\ E.op = "find"
        /\ LET t1 == BAdd(E.t, E.dt)  z1 == BAdd(E.z, Path(E.v, E.dt)) IN
             IF E.found THEN /\ ~E.core /\ Passes(E.p, 1) /\ CrossMaybe(E.t, E.z, t1, z1)
                             /\ BLeq(BSub(E.t, BI(1000)), E.tc) /\ BLeq(E.tc, BAdd(t1, BI(1000)))
                             /\ On(E.tc, BAdd(E.z, Path(E.v, BSub(E.tc, E.t))))
             ELSE E.core \/ ~Passes(E.p, -1) \/ ~CrossSure(E.t, E.z, t1, z1)
\* a stretch of life of a particle in a run: from its birth to its record, its next interaction or the end
Life == /\ E.op = "life"
        /\ BLeq(BSub(E.a[1], BI(10)), E.b[1])
        /\ (E.free => \A c \in 1..3 : BLeq(BAbs(BSub(E.b[c + 1], BAdd(E.a[c + 1], Path(E.v[c], BSub(E.b[1], E.a[1]))))), BI(2000)))
        /\ IF E.rec THEN Passes(E.p, 1) /\ On(E.b[1], E.b[4]) /\ CrossMaybe(E.a[1], E.a[4], E.b[1], E.b[4])
           ELSE ~Passes(E.p, -1) \/ ~CrossSure(E.a[1], E.a[4], E.b[1], E.b[4])
Init == i = 1
Next == i <= Len(Trace) /\ i' = i + 1 /\ (Find \/ Life)
Spec == Init /\ [][Next]_i
=============================================================================
