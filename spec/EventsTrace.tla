----------------------------- MODULE EventsTrace -----------------------------
(* Complete runs: begin and end of each event and ensemble, interactions, and  *)
(* the ends found in each output file.                                         *)
EXTENDS TraceLib, Events
VARIABLES i, run, ev, phase, ens, live, must, may, nonempty, ends, b
vars == <<i, run, ev, phase, ens, live, must, may, nonempty, ends, b>>
E == Trace[i]
Range(s) == {s[j] : j \in DOMAIN s}
Own(key) == IF ~run.collider THEN "" ELSE IF key[1] < run.nproj THEN "P" ELSE "T"
P0(key) == [key |-> key, own |-> Own(key), anc |-> {Own(key)} \ {""}]
Keys(S) == {k.key : k \in S}
Fin == Finished(run.count, run.nens, ev, nonempty)
Begin == /\ E.op = "run" /\ phase = "idle" /\ run' = E /\ ev' = 0 /\ phase' = "in" /\ ens' = 0 /\ nonempty' = 0
         /\ live' = <<>> /\ must' = {} /\ may' = {} /\ ends' = <<>> /\ b' = <<>>
In == /\ E.op = "in" /\ phase = "in" /\ ~Fin /\ E.ev = ev /\ E.ens = ens
      /\ Cardinality(Range(E.ks)) = Len(E.ks)
      /\ (run.size > 0 => Len(E.ks) = run.size)
      /\ live' = Append(live, {P0(k) : k \in Range(E.ks)})
      /\ IF ens + 1 < run.nens THEN ens' = ens + 1 /\ UNCHANGED phase ELSE ens' = 0 /\ phase' = "go"
      /\ UNCHANGED <<run, ev, must, may, nonempty, ends, b>>
Interact == /\ E.op = "int" /\ phase = "go"
            /\ \E e \in 1..run.nens :
                 /\ Range(E.ik) \subseteq Keys(live[e])
                 /\ LET in == {k \in live[e] : k.key \in Range(E.ik)}
                        out == {Heir(k, in, E.same) : k \in Range(E.ok)}
                    IN /\ live' = [live EXCEPT ![e] = (@ \ in) \cup out]
                       /\ must' = IF Meet(in) THEN must \cup {e} ELSE must
                       /\ may' = IF Touch(in) THEN may \cup {e} ELSE may
            /\ UNCHANGED <<run, ev, phase, ens, nonempty, ends, b>>
Out == /\ E.op = "out" /\ phase \in {"go", "out"} /\ E.ev = ev /\ E.ens = ens
       /\ Keys(live[ens + 1]) = Range(E.ks) /\ Len(E.ks) = Cardinality(live[ens + 1])
       /\ phase' = "end" /\ UNCHANGED <<run, ev, ens, live, must, may, nonempty, ends, b>>
\* E.empty: the flag; outside of collisions of nuclei it means nothing
End == /\ E.op = "end" /\ phase = "end" /\ E.ev = ev /\ E.ens = ens
       /\ run.collider => /\ (ens + 1) \in must => ~E.empty
                          /\ ~E.empty => (ens + 1) \in may
                          /\ ens > 0 => E.b = b[Len(b)]
       /\ LET nn == IF run.collider /\ ~E.empty THEN nonempty + 1 ELSE nonempty
          IN IF ens + 1 < run.nens THEN ens' = ens + 1 /\ phase' = "out" /\ nonempty' = nn /\ UNCHANGED <<ev, live, must, may>>
             ELSE ens' = 0 /\ phase' = "in" /\ nonempty' = nn /\ ev' = ev + 1 /\ live' = <<>> /\ must' = {} /\ may' = {}
       /\ ends' = Append(ends, [ev |-> E.ev, ens |-> E.ens, empty |-> E.empty]) /\ b' = Append(b, E.b)
       /\ UNCHANGED run
\* another file of the same run: its ends, and how many blocks of particles precede each of them
Blocks(o, e) == IF o = "Yes" THEN 1 ELSE IF o = "IfNotEmpty" THEN (IF e THEN 0 ELSE 1) ELSE -1
File == /\ E.op = "file" /\ phase = "in" /\ Fin /\ Len(E.ends) = Len(ends)
        /\ \A j \in DOMAIN ends : /\ E.ends[j].ev = ends[j].ev /\ E.ends[j].ens = ends[j].ens /\ E.ends[j].empty = ends[j].empty
                                  /\ E.ends[j].b - b[j] \in -1..1
                                  /\ Blocks(E.only, ends[j].empty) \in {-1, E.ends[j].blocks}
        /\ UNCHANGED <<run, ev, phase, ens, live, must, may, nonempty, ends, b>>
Eof == /\ E.op = "eof" /\ phase = "in" /\ ens = 0 /\ Fin /\ phase' = "idle"
       /\ UNCHANGED <<run, ev, ens, live, must, may, nonempty, ends, b>>
Init == i = 1 /\ run = [nens |-> 0] /\ ev = 0 /\ ens = 0 /\ phase = "idle" /\ live = <<>> /\ must = {} /\ may = {} /\ nonempty = 0 /\ ends = <<>> /\ b = <<>>
Next == i <= Len(Trace) /\ i' = i + 1 /\ (Begin \/ In \/ Interact \/ Out \/ End \/ File \/ Eof)
Spec == Init /\ [][Next]_vars
=============================================================================
