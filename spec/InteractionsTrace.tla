-------------------------- MODULE InteractionsTrace --------------------------
(* Recorded chains of interactions on a real particle list.  WHAT selects the  *)
(* part of the specification that is to be decided: identity and history (C03) *)
(* or conservation (C05).                                                      *)
EXTENDS Interactions, TraceLib
CONSTANT What
VARIABLES i, live, used
vars == <<i, live, used>>
E == Trace[i]
Range(s) == {s[k] : k \in DOMAIN s}
Init == i = 1 /\ live = {} /\ used = {}
Outdated(c) == \E k \in DOMAIN c : ~UpToDate(live, c[k])
\* same particles up to where they are
Still(p) == [p EXCEPT !.x = 0]
Consistent == /\ \A k \in DOMAIN E.in : UpToDate(live, E.in[k]) /\ E.in[k] = Get(live, E.in[k].id)
              /\ IF E.kind \in Keeps THEN SameOnes(E.in, E.out) ELSE NewOnes(used, E.in, E.out)
              /\ (E.kind = FluidRemoval => E.out = <<>>)
              /\ \A k \in DOMAIN E.out : /\ History(E.kind, E.n, E.t, E.in, E.out[k], k)
                                         /\ Place(E.kind, E.t, E.in, E.box, E.out[k], k)
                                         /\ Formation(E.kind, E.t, E.in, E.out[k], k)
Conserved == /\ (E.kind \notin {FluidRemoval, Free} => Balance(E.in, E.out, 40))
             /\ \A k \in DOMAIN E.out : OnShell(E.out[k])
             /\ (E.kind \in {Wall, FluidKeep} => \A k \in DOMAIN E.in : E.out[k].p = E.in[k].p)
Perform == IF E.res = "refused" THEN UNCHANGED <<live, used>>
           ELSE /\ E.res = "ok"
                /\ live' = Range(E.live) /\ used' = used \cup Ids(live')
                /\ IF What = "identity"
                   THEN Consistent /\ live' = Replace(live, {E.in[k].id : k \in DOMAIN E.in}, Range(E.out))
                        /\ Unique(live') /\ Len(E.live) = Cardinality(live')
                   ELSE Conserved
Step == \/ E.op = "start" /\ live' = Range(E.live) /\ used' = (IF Has(E, "reset") THEN {} ELSE used) \cup Ids(live')
        \/ E.op = "check" /\ UNCHANGED <<live, used>>
             /\ (What = "identity" => \A k \in DOMAIN E.pool : E.pool[k].valid = ~Outdated(E.pool[k].copies))
        \/ E.op = "move" /\ live' = Range(E.live) /\ used' = used /\ {Still(p) : p \in live'} = {Still(p) : p \in live}
        \/ E.op = "perform" /\ Perform
Next == i <= Len(Trace) /\ Step /\ i' = i + 1
Spec == Init /\ [][Next]_vars
==============================================================================
