--------------------------- MODULE ChannelsTrace ---------------------------
(* Channels offered by the real code to pairs of particles.                    *)
EXTENDS Channels, TraceLib
VARIABLES i, tab
vars == <<i, tab>>
E == Trace[i]
Abs(a) == IF a < 0 THEN -a ELSE a
Types == E.op = "types" /\ tab' = [p \in {E.T[k].pdg : k \in DOMAIN E.T} |-> LET k == CHOOSE j \in DOMAIN E.T : E.T[j].pdg = p IN E.T[k]]
Sp(ids) == [k \in DOMAIN ids |-> tab[ids[k]]]
\* weights are multiples of 1e-7 of the largest total
Good(in, x, e) == /\ x.res = "ok"
                  /\ \A k \in DOMAIN x.c : /\ ~x.c[k].neg
                                           /\ x.c[k].some => Balanced(in, Sp(x.c[k].out)) /\ Possible(Sp(x.c[k].out), e, 2)
                  /\ Abs(x.total - Sum([k \in DOMAIN x.c |-> x.c[k].w])) <= 2 + Len(x.c)
\* what is realized is an offered channel
Realized(x) == x.proc # 0 => \E k \in DOMAIN x.c : x.c[k].some /\ x.c[k].proc = x.proc /\ x.c[k].out = x.final
Keys(x) == {<<x.c[k].proc, x.c[k].out>> : k \in DOMAIN x.c}
Of(x, key) == Sum([k \in DOMAIN x.c |-> IF <<x.c[k].proc, x.c[k].out>> = key THEN x.c[k].w ELSE 0])
Num(x, key) == Cardinality({k \in DOMAIN x.c : <<x.c[k].proc, x.c[k].out>> = key})
Equal(x, y, S) == \A key \in S : Abs(Of(x, key) - Of(y, key)) <= 3 + Num(x, key) + Num(y, key)
ClassOf(in, key) == Class(key[1], in, Sp(key[2]))
\* (with annihilation through resonances, its cross section is what is left over by the others)
Rest(s, c) == c = "NNbar" /\ s.nnbar = "resonances"
Pair == /\ E.op = "pair" /\ UNCHANGED tab
        /\ LET in == <<tab[E.a], tab[E.b]>> IN
           /\ Good(in, E.x, E.sqrts) /\ Good(in, E.y, E.sqrts) /\ Good(in, E.z, E.sqrts)
           /\ Realized(E.x) /\ Realized(E.z)
           /\ Equal(E.x, E.y, Keys(E.x) \cup Keys(E.y))
           /\ \A key \in Keys(E.x) : Admits(E.sw, ClassOf(in, key)) \/ (E.top /\ Keys(E.x) = {key} /\ key[1] = Elastic)
           /\ \A key \in Keys(E.z) : Admits(E.psw, ClassOf(in, key)) \/ (E.top /\ Keys(E.z) = {key} /\ key[1] = Elastic)
           \* (a given total is shared out among the channels there are; if there is none, they scatter elastically)
           /\ ~E.top => Equal(E.x, E.z, {key \in Keys(E.x) \cup Keys(E.z) : Admits(E.psw, ClassOf(in, key)) /\ ~Rest(E.psw, ClassOf(in, key))})
           \* two nucleons at low energy do not scatter elastically
           /\ (NN(in) /\ E.low /\ ~E.top => \A key \in Keys(E.x) : key[1] # Elastic)
Init == i = 1 /\ tab = <<>>
Next == i <= Len(Trace) /\ i' = i + 1 /\ (Types \/ Pair)
Spec == Init /\ [][Next]_vars
=============================================================================
