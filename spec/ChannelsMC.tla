----------------------------- MODULE ChannelsMC -----------------------------
(* The classes of reactions over a small catalogue of species, and the list of *)
(* channels as it is put together switch by switch and then drawn from.        *)
EXTENDS Channels
CONSTANT Small
Sp(k, q, b, s, m, sg) == [kind |-> k, q |-> q, b |-> b, s |-> s, c |-> 0, min |-> m, sign |-> sg]
Cat == {Sp("N", 1, 1, 0, 9, 1), Sp("N", 0, 1, 0, 9, 1), Sp("N", -1, -1, 0, 9, -1), Sp("N", 0, -1, 0, 9, -1), Sp("D", 2, 1, 0, 11, 1), Sp("D", 0, 1, 0, 11, 1),
        Sp("N*", 1, 1, 0, 11, 1), Sp("K", 1, 0, 1, 5, 1), Sp("K", -1, 0, -1, 5, -1), Sp("K", 0, 0, -1, 5, -1), Sp("pi", 1, 0, 0, 1, 1), Sp("pi", 0, 0, 0, 1, 1), Sp("pi", -1, 0, 0, 1, -1),
        Sp("Y", 0, 1, -1, 11, 1), Sp("d", 1, 2, 0, 18, 1), Sp("d'", 1, 2, 0, 18, 1), Sp("meson", 0, 0, 0, 3, 1)}
C == IF Small THEN {p \in Cat : p.sign = 1} ELSE Cat
Names == {"Elastic", "NN_to_NR", "NN_to_DR", "KN_to_KN", "KN_to_KDelta", "Strangeness_exchange", "NNbar", "PiDeuteron_to_NN", "PiDeuteron_to_pidprime", "NDeuteron_to_Ndprime"}
VARIABLES in, e, on, todo, offered, drawn, phase
vars == <<in, e, on, todo, offered, drawn, phase>>
Outs(i, energy) == {o \in C \X C : Balanced(i, o) /\ Possible(o, energy, 0) /\ Class(ToTwo, i, o) # "none"}
Init == /\ in \in C \X C /\ e \in {in[1].min + in[2].min, in[1].min + in[2].min + 8} /\ on \in {Names} \cup {Names \ {n} : n \in Names} \cup {{}}
        /\ todo = Names \ {"Elastic", "NNbar"} /\ offered = {} /\ drawn = {} /\ phase = "build"
\* one class of reactions after the other, in any order
Build == /\ phase = "build" /\ \E n \in todo :
            /\ n = (CHOOSE m \in todo : TRUE)
            /\ todo' = todo \ {n} /\ offered' = IF n \in on THEN offered \cup {o \in Outs(in, e) : Class(ToTwo, in, o) = n} ELSE offered
         /\ UNCHANGED <<in, e, on, drawn, phase>>
Draw == /\ phase = "build" /\ todo = {} /\ phase' = "done"
        /\ IF offered = {} THEN drawn' = {} ELSE \E o \in offered : drawn' = {o}
        /\ UNCHANGED <<in, e, on, todo, offered>>
Next == Build \/ Draw
Spec == Init /\ [][Next]_vars
\* ---- guarantees
Exact == phase = "done" => offered = {o \in Outs(in, e) : Class(ToTwo, in, o) \in on \cap (Names \ {"NNbar"})}
Respect == \A o \in offered : Balanced(in, o) /\ Possible(o, e, 0)
Drawn == drawn \subseteq offered
\* neither the order of the pair nor the direction of the reaction changes the class
Swap(p) == <<p[2], p[1]>>
Unordered == \A o \in Outs(in, e) : /\ Class(ToTwo, in, o) = Class(ToTwo, Swap(in), o) /\ Class(ToTwo, in, o) = Class(ToTwo, in, Swap(o))
                                    /\ Class(ToTwo, in, o) = Class(ToTwo, o, in)
=============================================================================
