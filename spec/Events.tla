------------------------------- MODULE Events -------------------------------
(* How many events a run has, which of their ensembles count as empty, and     *)
(* which particles are in which ensemble.                                      *)
EXTENDS Integers, FiniteSets, Sequences
\* c: [kind |-> "fixed", n |-> events] or [kind |-> "minimum", n |-> nonempty ensembles, max |-> ensembles]
Cap(c, nens) == (c.max + nens - 1) \div nens
\* events done so far, ensembles among them that were not empty
Finished(c, nens, done, nonempty) ==
  IF c.kind = "fixed" THEN done >= c.n ELSE nonempty >= c.n \/ done >= Cap(c, nens)
\* A particle k is [key, own, anc]: own is where it belongs to ("P", "T" or "" for nothing), anc is the set of
\* nuclei from which anything in its history came.
Meet(in) == (\E k \in in : k.own = "P") /\ (\E k \in in : k.own = "T")
Touch(in) == {"P", "T"} \subseteq UNION {k.anc : k \in in}
\* particles keep where they belong to when they only change their momentum
Heir(key, in, same) == LET o == {k \in in : same /\ k.key[1] = key[1]}
                       IN [key |-> key, own |-> (IF o = {} THEN "" ELSE (CHOOSE k \in o : TRUE).own), anc |-> UNION {k.anc : k \in in}]
=============================================================================
