------------------------------ MODULE Reproduce ------------------------------
(* What a run yields, as a function of its physics settings and seed.          *)
(* known is a set of pairs <<key, value>>; keys are sequences of texts.        *)
EXTENDS Sequences, FiniteSets
\* new observations agree with the known ones and with each other
Agree(known, new) == /\ \A x, y \in new : x[1] = y[1] => x[2] = y[2]
                     /\ \A x \in new : \A y \in known : x[1] = y[1] => x[2] = y[2]
Value(known, key) == (CHOOSE x \in known : x[1] = key)[2]
KnownKey(known, key) == \E x \in known : x[1] = key
=============================================================================
