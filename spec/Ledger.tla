------------------------------- MODULE Ledger -------------------------------
(* A whole event as it is recorded in the output files: the content of each    *)
(* parallel ensemble follows from the interactions recorded so far.            *)
(* Units: 1e-6 fm, 1e-6 GeV.                                                   *)
EXTENDS Interactions, TraceLib
CONSTANT What                 \* "history" | "conservation"
VARIABLES i, live, used, n, last, crit, box, tot, therm
vars == <<i, live, used, n, last, crit, box, tot, therm>>
E == Trace[i]
Range(s) == {s[k] : k \in DOMAIN s}
ById(s) == [d \in {s[k].id : k \in DOMAIN s} |-> CHOOSE p \in Range(s) : p.id = d]
Max(a, b) == IF a > b THEN a ELSE b
\* v (1e-6) times dt (1e-6 fm) without leaving 32 bit
Path(v, dt) == LET a == Abs(v)  d == Abs(dt)
                   vh == a \div 1000  vl == a % 1000  dh == d \div 10000  dl == d % 10000
                   m == vh * dh * 10 + (vh * dl) \div 1000 + (vl * dh) \div 100 + (vl * dl) \div 1000000
               IN IF (v < 0) = (dt < 0) THEN m ELSE -m
\* the same up to whole box lengths
NearMod(a, b, L, tol) == IF L = 0 THEN Near(a, b, tol)
                         ELSE LET r == (a - b) % L IN r <= tol \/ L - r <= tol
SameState(p, o) == /\ p.id = o.id /\ p.type = o.type /\ p.q = o.q /\ p.b = o.b /\ p.s = o.s /\ p.p = o.p
                   /\ p.nc = o.nc /\ p.f = o.f /\ p.pid = o.pid /\ p.pt = o.pt /\ p.tl = o.tl
                   /\ p.p1 = o.p1 /\ p.p2 = o.p2
Moved(p, o, L) == LET dt == o.x[1] - p.x[1]
                  IN dt >= 0 /\ \A c \in 1..3 : NearMod(o.x[c + 1], p.x[c + 1] + Path(p.v[c], dt), L, 10 + dt \div 100000)
Agrees(e, o) == o.id \in DOMAIN live[e] /\ SameState(live[e][o.id], o) /\ Moved(live[e][o.id], o, box)
Unique1(s) == \A j, k \in DOMAIN s : s[j].id = s[k].id => j = k
\* ---- start of an event
Start == /\ E.op = "start"
         /\ live' = [e \in 1..E.nens |-> ById(E.ens[e])] /\ used' = [e \in 1..E.nens |-> DOMAIN ById(E.ens[e])]
         /\ n' = 0 /\ therm' = E.therm /\ last' = [e \in 1..E.nens |-> -2000000000] /\ crit' = E.crit /\ box' = E.box
         /\ tot' = [e \in 1..E.nens |-> E.ens[e]]
         /\ (What = "history" => \A e \in 1..E.nens : Unique1(E.ens[e]) /\ E.ens[e] = E.ens2[e])
\* ---- conservation and mass shell
Mass(p) == /\ Near(p.m, p.mm, p.macc)
           /\ IF p.stable THEN Near(p.mm, p.pole, 2) ELSE p.mm >= p.min - 2
\* (a sample of a hundred particles adds up as many roundings)
Conserved == /\ (E.kind # FluidRemoval => Balance(E.in, E.out, IF E.kind = Therm THEN 10 + Len(E.in) + Len(E.out) ELSE 5))
             /\ \A k \in DOMAIN E.out : Mass(E.out[k])
             /\ (E.kind \in {Wall, FluidKeep} => \A k \in DOMAIN E.in : E.out[k].p = E.in[k].p)
\* ---- one interaction, of some ensemble that has its particles in that state
\* kind 6 (wall) leaves its particle as it is but for the wall
\* (particles handed in together have the same number, but did not interact)
TwoInARow(in) == Len(in) = 2 /\ in[1].pid = in[2].pid /\ in[1].pid # 0 /\ in[1].pt # Free
PlaceIt(o, k) == IF crit = "Stochastic" /\ E.kind \notin Keeps \cup {Therm}
                 THEN o.x[1] = E.t /\ \E j \in DOMAIN E.in : \A c \in 2..4 : NearMod(o.x[c], E.in[j].x[c], box, 3)
                 ELSE Place(E.kind, E.t, E.in, box, o, k)
FormTime(o, k) == IF E.kind \in Keeps THEN o.f = E.in[k].f
                  ELSE IF E.kind \in {Decay, Therm} \/ MaxF(E.in) <= E.t THEN o.f = E.t ELSE o.f = MaxF(E.in)
\* ---- a thermalization happens at start + k * period, and replaces all that is in the cells it is done in
\* (a place nearer to the edge of a cell than tol is in none)
Cell(x, tol) == [c \in 1..3 |-> LET L == box \div therm[c + 2]  k == (x[c] % box) \div L  r == (x[c] % box) % L
                                IN IF r < tol \/ L - r < tol THEN -1 ELSE k]
Sure(cell) == \A c \in 1..3 : cell[c] >= 0
PosAt(p, t) == [c \in 1..3 |-> p.x[c + 1] + Path(p.v[c], t - p.x[1])]
Region(e) == LET gone == {E.in[k].id : k \in DOMAIN E.in}
                 tol(p) == 12 + (E.t - p.x[1]) \div 100000
                 left == {Cell(PosAt(live[e][d], E.t), tol(live[e][d])) : d \in DOMAIN live[e] \ gone}
                 hot == {Cell([c \in 1..3 |-> p.x[c + 1]], 3) : p \in Range(E.in) \cup Range(E.out)}
             IN \A h \in hot : Sure(h) => h \notin left
Thermalizes(e) == /\ therm[3] > 0 /\ E.t > therm[1] /\ (E.t - therm[1]) % therm[2] = 0
                  /\ Len(E.in) > 30 /\ Region(e)
Effect(e) == /\ (E.kind = Therm => Thermalizes(e))
             /\ IF E.kind \in Keeps THEN SameOnes(E.in, E.out) ELSE NewOnes(used[e], E.in, E.out)
             /\ (E.kind = FluidRemoval => E.out = <<>>)
             /\ \A k \in DOMAIN E.in : E.in[k].x[1] = E.t
             /\ \A k \in DOMAIN E.out : /\ History(E.kind, n + 1, E.t, E.in, E.out[k], k)
                                        /\ PlaceIt(E.out[k], k)
                                        /\ FormTime(E.out[k], k)
             /\ (E.kind \in TwoBody \cup {Elastic} /\ crit # "Stochastic" => ~TwoInARow(E.in))
Interact == /\ E.op = "int"
            /\ \E e \in DOMAIN live :
                 /\ Len(E.in) > 0 /\ Unique1(E.in) /\ E.in[1].id \in DOMAIN live[e] /\ SameState(live[e][E.in[1].id], E.in[1])
                 /\ (What = "history" => /\ \A k \in DOMAIN E.in : Agrees(e, E.in[k])
                                         /\ E.t >= last[e] /\ Effect(e))
                 /\ LET gone == {E.in[k].id : k \in DOMAIN E.in}
                        new == ById(E.out)
                        ids == (DOMAIN live[e] \ gone) \cup DOMAIN new
                    IN live' = [live EXCEPT ![e] = [d \in ids |-> IF d \in DOMAIN new THEN new[d] ELSE live[e][d]]]
                 /\ used' = [used EXCEPT ![e] = @ \cup {E.out[k].id : k \in DOMAIN E.out}]
                 /\ last' = [last EXCEPT ![e] = Max(@, E.t)]
            /\ n' = n + 1 /\ UNCHANGED <<crit, box, tot, therm>>
            /\ (What = "conservation" => Conserved)
\* ---- the content at some time
Content(e, s, t) == /\ Unique1(s) /\ {s[k].id : k \in DOMAIN s} = DOMAIN live[e]
                    /\ \A k \in DOMAIN s : s[k].x[1] = t /\ Agrees(e, s[k])
\* the same totals as at the start
Totals(s, s0) == Balance(s, s0, 20 + 2 * (Len(s) + Len(s0)) + n)
Output == /\ E.op = "out" /\ UNCHANGED <<live, used, n, crit, box, tot, therm>>
          /\ last' = [last EXCEPT ![E.e] = Max(@, E.t)]
          /\ (What = "history" => E.t >= last[E.e] /\ Content(E.e, E.parts, E.t))
          /\ (What = "conservation" => Totals(E.parts, tot[E.e]))
End == /\ E.op = "end" /\ UNCHANGED <<live, used, n, last, crit, box, tot, therm>>
       /\ (What = "history" => E.t >= last[E.e] /\ Content(E.e, E.parts, E.t) /\ E.parts = E.parts2)
       /\ (What = "conservation" => Totals(E.parts, tot[E.e]))
Init == i = 1 /\ live = <<>> /\ used = <<>> /\ n = 0 /\ last = <<>> /\ crit = "" /\ box = 0 /\ tot = <<>> /\ therm = <<0, 0, 0, 0, 0>>
Next == i <= Len(Trace) /\ i' = i + 1 /\ (Start \/ Interact \/ Output \/ End)
Spec == Init /\ [][Next]_vars
=============================================================================
