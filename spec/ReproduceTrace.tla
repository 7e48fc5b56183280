--------------------------- MODULE ReproduceTrace ---------------------------
(* Runs of the program: seeds of events and digests of what was written.       *)
EXTENDS TraceLib, Reproduce
VARIABLES i, known
E == Trace[i]
Range(s) == {s[j] : j \in DOMAIN s}
Dir(o) == Range(o.files)                       \* <<name, digest>>
New(r) == {<<<<"whole", r.phys, r.seed, ToString(r.n), x[1]>>, x[2]>> : x \in Range(r.whole)}
          \cup {<<<<"event", x[1], x[2], x[3]>>, x[4]>> : x \in Range(r.events)}
          \cup {<<<<"next", x[1], x[2]>>, x[3]>> : x \in Range(r.next)}
          \cup (IF r.conf = "" THEN {} ELSE {<<<<"config", r.from>>, r.conf>>})
Run == /\ E.op = "run" /\ E.ok
       \* the seed that is used is the one that was asked for and is recorded; a seed is not negative
       /\ E.seed = E.used /\ (E.asked # "-1" => E.asked = E.used) /\ E.neg = FALSE
       /\ Agree(IF Has(E, "reset") THEN {} ELSE known, New(E))
       /\ known' = (IF Has(E, "reset") THEN {} ELSE known) \cup New(E)
Init == i = 1 /\ known = {}
Next == i <= Len(Trace) /\ i' = i + 1 /\ Run
Spec == Init /\ [][Next]_<<i, known>>
=============================================================================
