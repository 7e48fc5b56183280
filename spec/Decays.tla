------------------------------- MODULE Decays --------------------------------
(* Which particles decay, when, and into what.  T is the table of particle     *)
(* types: pole mass, whether the type counts as stable, and its decay modes as *)
(* lists of types (with a mark on dilepton modes).                             *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE MinMass(_, _), SumOver(_, _, _)
\* least mass a particle of a type can have: that of the lightest final state it can end in
SumOver(T, l, n) == IF n > Len(l) THEN 0 ELSE MinMass(T, l[n]) + SumOver(T, l, n + 1)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
MinMass(T, k) == IF T[k].stable THEN T[k].mass
                 ELSE Least({T[k].mass} \cup {SumOver(T, T[k].modes[m].out, 1) : m \in DOMAIN T[k].modes})
Threshold(T, k, m) == SumOver(T, T[k].modes[m].out, 1)
\* during the evolution only types that count as unstable decay; initial particles may be exempt until they interact
MayDecay(T, k, ncoll, initial) == ~T[k].stable /\ (initial \/ ncoll > 0)
Open(T, k, mass, dileptons) == {m \in DOMAIN T[k].modes : mass > Threshold(T, k, m) /\ (dileptons \/ ~T[k].modes[m].dilepton)}
\* at the end of an event: all unstable types, or everything that has decay modes at all
MustDecay(T, k, force, every) == force /\ T[k].modes # <<>> /\ (every \/ ~T[k].stable)
=============================================================================
