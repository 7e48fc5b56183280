---------------------------- MODULE Interactions ----------------------------
(* What carrying out one interaction does to the particle list, to the         *)
(* histories of the particles and to the conserved quantities.                 *)
EXTENDS Particles
Elastic == 1
Decay == 5
Wall == 6
Therm == 7                            \* a sample of a thermal distribution replaces what was there
FluidRemoval == 8
FluidKeep == 21
Free == 90
TwoBody == {2, 3, 4, 13, 15}          \* 2->1, 2->2, 2->3, 2->5, 2->4
Multi == {10, 11, 12, 14}             \* 3->1, 3->2, 5->2, 4->2
Keeps == {Elastic, Wall, FluidKeep}   \* the particles stay the same ones
Abs(a) == IF a < 0 THEN -a ELSE a
Near(a, b, tol) == Abs(a - b) <= tol
MaxF(in) == LET S == {in[k].f : k \in DOMAIN in} IN CHOOSE m \in S : \A s \in S : s <= m
RECURSIVE SumF(_, _, _)
SumF(f(_), s, k) == IF k = 0 THEN 0 ELSE f(s[k]) + SumF(f, s, k - 1)
Sum(f(_), s) == SumF(f, s, Len(s))

\* ---- identity
SameOnes(in, out) == Len(in) = Len(out) /\ \A k \in DOMAIN in : in[k].id = out[k].id /\ in[k].type = out[k].type
NewOnes(used, in, out) == LET ids == {out[k].id : k \in DOMAIN out}
                          IN Cardinality(ids) = Len(out) /\ Fresh(used, ids)
\* ---- history of product o (k-th) of an interaction
History(kind, n, t, in, o, k) ==
  IF kind \in {Wall, FluidKeep}
  THEN o.nc = in[k].nc /\ o.pid = in[k].pid /\ o.pt = in[k].pt /\ o.p1 = in[k].p1 /\ o.p2 = in[k].p2 /\ o.tl = in[k].tl
  ELSE /\ o.pid = n /\ o.pt = kind /\ o.tl = t
       /\ o.nc = IF kind = Elastic THEN in[k].nc + 1 ELSE 1
       /\ CASE kind = Elastic -> o.p1 = in[k].p1 /\ o.p2 = in[k].p2
            [] kind = Decay -> o.p1 = in[1].type /\ o.p2 = "0"
            [] kind \in TwoBody -> o.p1 = in[1].type /\ o.p2 = in[2].type
            [] OTHER -> o.p1 = "0" /\ o.p2 = "0"
\* ---- place: products start where the consumed particles meet (all of them are at time t)
Mid(in, box, c) == LET m == Sum(LAMBDA p : p.x[c], in) \div Len(in)
                       far == box > 0 /\ Len(in) = 2 /\ Abs(in[1].x[c] - in[2].x[c]) > box \div 2
                   IN IF ~far THEN m ELSE IF m >= box \div 2 THEN m - box \div 2 ELSE m + box \div 2
Place(kind, t, in, box, o, k) ==
  IF kind \in {Elastic, FluidKeep} THEN o.x = in[k].x
  ELSE IF kind \in {Wall, Free} THEN TRUE
  ELSE IF kind = Therm THEN o.x[1] = t /\ (box > 0 => \A c \in 2..4 : o.x[c] >= 0 /\ o.x[c] <= box)
  ELSE o.x[1] = t /\ \A c \in 2..4 : Near(o.x[c], Mid(in, box, c), 3)
\* ---- formation: products are formed at once, unless a consumed particle still was not
Formation(kind, t, in, o, k) ==
  IF kind \in Keeps THEN o.f = in[k].f /\ o.sc = in[k].sc
  ELSE IF kind \in {Decay, Therm} THEN o.f = t
  ELSE IF kind = Free THEN TRUE
  ELSE IF MaxF(in) <= t THEN o.f = t
  ELSE o.f = MaxF(in) /\ \E j \in DOMAIN in : o.sc = in[j].sc
\* ---- conservation: four-momentum to tol units of 1e-7 GeV, charges exactly
Balance(in, out, tol) ==
  /\ \A c \in 1..4 : Near(Sum(LAMBDA p : p.p[c], in), Sum(LAMBDA p : p.p[c], out), tol)
  /\ Sum(LAMBDA p : p.q, in) = Sum(LAMBDA p : p.q, out)
  /\ Sum(LAMBDA p : p.b, in) = Sum(LAMBDA p : p.b, out)
  /\ Sum(LAMBDA p : p.s, in) = Sum(LAMBDA p : p.s, out)
\* ---- mass shell (units of 1e-5 GeV)
OnShell(p) == IF p.stable THEN Near(p.m, p.pole, 2) ELSE p.m >= p.min - 2
=============================================================================
