----------------------------- MODULE GridTrace ------------------------------
(* What the real grid offered for given particles, and what the real search    *)
(* found through it.  Lengths in 1e-4 fm.                                       *)
EXTENDS TraceLib, FiniteSets
VARIABLES i
E == Trace[i]
Abs(x) == IF x < 0 THEN -x ELSE x
Neg(v) == <<-v[1], -v[2], -v[3]>>
Zero == <<0, 0, 0>>
\* an offer: <<first, second, image of the first>>, numbers are positions in E.parts
Flip(o) == <<o[2], o[1], Neg(o[3])>>
Set(s) == {s[k] : k \in DOMAIN s}
Formed(k) == E.unformed \/ E.parts[k].formed
\* displacements that bring two particles within the interaction length of each other
Close(a, b) == {w \in (IF E.periodic THEN (-1..1) \X (-1..1) \X (-1..1) ELSE {Zero}) :
                  \A c \in 1..3 : Abs(E.parts[a].x[c] + w[c] * E.L - E.parts[b].x[c]) < E.cell - 1}
Grid == /\ E.op = "grid" /\ E.other = 0
        \* nothing twice, nothing with itself, no particle that cannot interact
        /\ LET S == Set(E.offers)
           IN /\ Cardinality(S) = Len(E.offers)
              /\ \A o \in S : o[1] # o[2] /\ Flip(o) \notin S /\ Formed(o[1]) /\ Formed(o[2])
              /\ (~E.periodic => \A o \in S : o[3] = Zero)
              /\ \A a \in DOMAIN E.parts : \A b \in (a + 1)..Len(E.parts) :
                   (Formed(a) /\ Formed(b)) => \A w \in Close(a, b) : <<a, b, w>> \in S \/ <<b, a, Neg(w)>> \in S
        /\ Set(E.singles) = {k \in DOMAIN E.parts : Formed(k)} /\ Cardinality(Set(E.singles)) = Len(E.singles)
\* every particle pair checked alone / through the grid / around some chosen particles
Search == /\ E.op = "search"
          /\ Set(E.close) \subseteq Set(E.grid) /\ Set(E.grid) \subseteq Set(E.pairs) /\ Len(E.grid) = Cardinality(Set(E.grid))
          /\ Len(E.around) = Cardinality(Set(E.around))
          /\ Set(E.around) = {p \in Set(E.direct) : (p[1] \in Set(E.some)) # (p[2] \in Set(E.some))}
          /\ Set(E.single) = Set(E.direct) /\ Len(E.single) = Cardinality(Set(E.single))
\* stretches of free motion <<begin, end, interaction at the end>> and pairs of them that meet closely enough
\* <<first, second, time, sure>> (1e-6 fm): who surely meets before anything else happens to either has collided,
\* and every collision is such a meeting
Min(a, b) == IF a < b THEN a ELSE b
Meet == /\ E.op = "meet"
        /\ \A m \in Set(E.meets) : LET a == E.segs[m[1]]  b == E.segs[m[2]]
                                  IN m[4] = 1 => m[3] >= Min(a[2], b[2]) - 2
        /\ \A k \in 1..E.n : \E m \in Set(E.meets) :
              LET a == E.segs[m[1]]  b == E.segs[m[2]] IN a[3] = k /\ b[3] = k /\ Abs(m[3] - a[2]) <= 2
Init == i = 1
Next == i <= Len(Trace) /\ i' = i + 1 /\ (Grid \/ Search \/ Meet)
Spec == Init /\ [][Next]_i
=============================================================================
