----------------------------- MODULE DecaysTrace -----------------------------
(* Decays offered and carried out by the real code (masses in 1e-6 GeV, times  *)
(* in 1e-6 fm): single searches, final searches, final states, and complete    *)
(* runs.                                                                       *)
EXTENDS Decays, TraceLib
VARIABLES i, T, min
vars == <<i, T, min>>
E == Trace[i]
Range(s) == {s[k] : k \in DOMAIN s}
\* thresholds with the least masses computed once per table
RECURSIVE Sum(_, _, _)
Sum(f, l, n) == IF n > Len(l) THEN 0 ELSE f[l[n]] + Sum(f, l, n + 1)
Thr(k, m) == Sum(min, T[k].modes[m].out, 1)
\* whether a mode is open is left undecided next to its threshold: for broad daughters the spectral function is cut off where it is negligible
Margin(k, m) == IF \E d \in Range(T[k].modes[m].out) : ~T[d].stable THEN 100000 ELSE 20
CanBe(k, mass, all) == {m \in DOMAIN T[k].modes : mass > Thr(k, m) - 20 /\ (all \/ ~T[k].modes[m].dilepton)}
\* Dalitz decays have widths only in a tabulated range of masses
MustBe(k, mass, all) == {m \in DOMAIN T[k].modes : (~T[k].modes[m].dilepton \/ Len(T[k].modes[m].out) = 2) /\ mass > Thr(k, m) + Margin(k, m) /\ (all \/ ~T[k].modes[m].dilepton)}
Outs(k, S) == {T[k].modes[m].out : m \in S}
Types == E.op = "types" /\ T' = E.T /\ min' = [k \in DOMAIN E.T |-> MinMass(E.T, k)]
\* ---- one search interval
Earliest(p) == IF p.formed THEN p.t ELSE p.f
Found(n) == \E x \in Range(E.found) : x.n = n
Search == /\ E.op = "search"
          /\ \A a, b \in DOMAIN E.found : E.found[a].n = E.found[b].n => a = b
          /\ \A x \in Range(E.found) :
               /\ x.n \in DOMAIN E.ps
               /\ LET p == E.ps[x.n] IN /\ MayDecay(T, p.k, p.nc, E.initial)
                                        /\ CanBe(p.k, p.m, FALSE) # {}
                                        /\ x.t >= Earliest(p) - 1 /\ x.t <= p.t + E.dt + 1
          \* with vanishing lifetime everything that may decay does so at once
          /\ (E.sure => \A n \in DOMAIN E.ps :
                 LET p == E.ps[n] IN (MayDecay(T, p.k, p.nc, E.initial) /\ MustBe(p.k, p.m, FALSE) # {} /\ Earliest(p) < p.t + E.dt - 2) => Found(n))
Modes == /\ E.op = "modes"
         /\ LET S == {x.out : x \in Range(E.modes)} IN
              /\ S \subseteq Outs(E.p.k, CanBe(E.p.k, E.p.m, E.all)) /\ Outs(E.p.k, MustBe(E.p.k, E.p.m, E.all)) \subseteq S
         /\ \A x \in Range(E.modes) : x.ok
         /\ \A a, b \in DOMAIN E.modes : E.modes[a].out = E.modes[b].out => a = b
\* ---- the end of an event
Final == /\ E.op = "final"
         /\ \A a, b \in DOMAIN E.found : E.found[a].n = E.found[b].n => a = b
         /\ {x.n : x \in Range(E.found)} = {n \in DOMAIN E.ps : MustDecay(T, E.ps[n].k, E.force, E.every)}
         /\ \A x \in Range(E.found) : x.t = E.ps[x.n].t
\* ---- what a decay gives
Sorted(l) == SortSeq(l, <)
Into(p, out, all) == /\ Sorted([n \in DOMAIN out |-> out[n].k]) \in Outs(p.k, CanBe(p.k, p.m, all))
                     /\ \A n \in DOMAIN out : LET d == out[n] IN
                          IF T[d.k].stable THEN d.m - T[d.k].mass \in -30..30 ELSE d.m >= min[d.k] - 30
                     /\ Sum([n \in DOMAIN out |-> out[n].m], [n \in DOMAIN out |-> n], 1) <= p.m + 60
Decay == /\ E.op = "decay"
         /\ IF E.res = "ok" THEN /\ Into(E.p, E.out, E.final)
                                 /\ \A n \in DOMAIN E.out : /\ \A c \in 1..4 : E.out[n].x[c] - E.at[c] \in -3..3
                                                            /\ E.out[n].f - E.t \in -1..1 /\ E.out[n].formed /\ E.out[n].core
            ELSE \* only next to the threshold
                 E.res = "failed" /\ MustBe(E.p.k, E.p.m, E.final) # CanBe(E.p.k, E.p.m, E.final)
\* ---- decays and last particles of complete runs
RunDecay == /\ E.op = "rundecay" /\ Into(E.p, E.out, E.last)
            /\ IF E.last THEN MustDecay(T, E.p.k, E.force, E.every)
               ELSE E.enabled /\ MayDecay(T, E.p.k, E.p.nc, E.initial) /\ E.t >= Earliest(E.p) - 2
            /\ \A n \in DOMAIN E.out : E.out[n].f - E.t \in -2..2
RunEnd == E.op = "runend" /\ \A n \in DOMAIN E.ks : ~MustDecay(T, E.ks[n], E.force, E.every)
Init == i = 1 /\ T = <<>> /\ min = <<>>
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ (Types \/ (UNCHANGED <<T, min>> /\ (Search \/ Modes \/ Final \/ Decay \/ RunDecay \/ RunEnd)))
Spec == Init /\ [][Next]_vars
=============================================================================
