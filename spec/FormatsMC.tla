------------------------------ MODULE FormatsMC ------------------------------
(* All histories of calls of a run (events, ensembles, interactions,           *)
(* intermediate times) and all options: the blocks written obey the grammar,   *)
(* every event and ensemble that is begun is ended, in order, and the text and *)
(* the binary file of a content consist of the same blocks.                    *)
EXTENDS Formats, FiniteSets
CONSTANTS NEv, NEns, NInner
Text == "Oscar2013"
Opts == [content : {"Particles", "Collisions", "Dileptons"}, only : {"Yes", "No", "IfNotEmpty"}, pse : BOOLEAN, format : {Text, "Binary", "Oscar1999"}]
        \cup [content : {"Initial_Conditions"}, only : {"Yes"}, pse : {FALSE}, format : {Text, "Binary", "Oscar1999", "For_vHLLE"}]
VARIABLES o, ev, ens, ph, inner, emp, file
\* ph: where the run is: "start", "run", "end"
vars == <<o, ev, ens, ph, inner, emp, file>>
Init == o \in Opts /\ ev = 0 /\ ens = 0 /\ ph = "start" /\ inner = 0 /\ emp = <<>> /\ file = <<>>
Put(op, e, s) == file' = file \o [k \in DOMAIN Expected(op, e, s, o) |-> [b |-> Expected(op, e, s, o)[k], ev |-> ev, ens |-> ens]]
Start == ph = "start" /\ ev < NEv /\ Put("start", FALSE, FALSE)
         /\ (IF ens + 1 < NEns THEN ens' = ens + 1 /\ UNCHANGED ph ELSE ens' = 0 /\ ph' = "run")
         /\ UNCHANGED <<o, ev, inner, emp>>
Interaction == ph = "run" /\ ens = 0 /\ inner < NInner /\ inner' = inner + 1
       /\ \E s \in BOOLEAN : Put("int", FALSE, s) /\ UNCHANGED <<o, ev, ens, ph, emp>>
Mid == ph = "run" /\ ~IsIC(o) /\ inner < NInner /\ Put("mid", FALSE, FALSE)
       /\ (IF ens + 1 < NEns THEN ens' = ens + 1 /\ UNCHANGED inner ELSE ens' = 0 /\ inner' = inner + 1)
       /\ UNCHANGED <<o, ev, ph, emp>>
End == ph \in {"run", "end"} /\ (ph = "end" \/ ens = 0)
       /\ (\E e \in BOOLEAN : Put("end", e, FALSE) /\ emp' = Append(emp, e))
       /\ (IF ens + 1 < NEns THEN ens' = ens + 1 /\ ph' = "end" /\ UNCHANGED <<ev, inner>>
          ELSE ens' = 0 /\ ph' = "start" /\ ev' = ev + 1 /\ inner' = 0)
       /\ UNCHANGED o
Next == Start \/ Interaction \/ Mid \/ End
Spec == Init /\ [][Next]_vars
----
Ends == {"close", "stop"}
Idx(S) == {k \in DOMAIN file : file[k].b \in S}
\* one end per event and ensemble, in ascending order
OneEndEach == \A k, l \in Idx(Ends) : k < l =>
                file[k].ev < file[l].ev \/ (file[k].ev = file[l].ev /\ file[k].ens < file[l].ens)
AllEnded == ph = "start" /\ ens = 0 => Cardinality(Idx(Ends)) = ev * NEns
\* nothing of an event is written after its end, nor before the end of the one before
Ordered == \A k, l \in DOMAIN file : k < l => file[k].ev <= file[l].ev
\* a final list is written for the ensembles the option selects
Final == ph = "start" /\ ens = 0 /\ o.content = "Particles" /\ o.only # "No" =>
           LET want == {k \in DOMAIN emp : o.only = "Yes" \/ ~emp[k]}
           IN  {<<file[k].ev, file[k].ens>> : k \in Idx({"out"})} = {<<(k - 1) \div NEns, (k - 1) % NEns>> : k \in want}
NoPartInOthers == o.content \in {"Dileptons"} => Idx({"in", "out"}) = {}
StartFirst == \A k \in Idx({"in", "start"}) : \A l \in DOMAIN file : l < k => file[l].ev < file[k].ev \/ file[l].b \in {"in", "start"}
=============================================================================
