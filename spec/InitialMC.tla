------------------------------ MODULE InitialMC -------------------------------
(* The way the nuclei are read: positions in files, buffered nuclei, events.   *)
EXTENDS Initial, FiniteSets, TLC
CONSTANTS AP, AT, LINES, SAME, EVENTS
VARIABLES posP, posT, bufP, bufT, usedP, usedT, event, log, labels
vars == <<posP, posT, bufP, bufT, usedP, usedT, event, log, labels>>
Read(pos, A) == [j \in 1..A |-> ((pos + j - 1) % LINES) + 1]
\* with one file there is one position
PosT(p, t) == IF SAME THEN p ELSE t
Init == /\ posP = (IF SAME THEN AP + AT ELSE AP) /\ posT = (IF SAME THEN AP + AT ELSE AT)
        /\ bufP = Read(0, AP) /\ bufT = Read(IF SAME THEN AP ELSE 0, AT)
        /\ usedP = FALSE /\ usedT = FALSE /\ event = 0 /\ log = <<>>
        /\ labels = <<"P", "T">>
\* an event: the projectile is arranged, then the target; a nucleus that was used is read anew
Event == /\ event < EVENTS /\ event' = event + 1
         /\ LET rp == usedP
                np == IF rp THEN Read(posP, AP) ELSE bufP
                p1 == IF rp THEN posP + AP ELSE posP
                t0 == IF SAME THEN p1 ELSE posT
                nt == IF usedT THEN Read(t0, AT) ELSE bufT
                t1 == IF usedT THEN t0 + AT ELSE t0
            IN /\ bufP' = np /\ bufT' = nt /\ usedP' = TRUE /\ usedT' = TRUE
               /\ posP' = (IF SAME THEN t1 ELSE p1) /\ posT' = t1
               /\ log' = Append(log, <<np, nt>>)
               \* reading anew does not change whom the nucleons belong to
               /\ UNCHANGED labels
Spec == Init /\ [][Event]_vars
\* each event has the nuclei the file order prescribes
InOrder == \A e \in 1..Len(log) :
             /\ (AP = AT \/ ~SAME) => /\ log[e][1] = LinesOf(Turn(1, e - 1, SAME), AP, LINES)
                                      /\ log[e][2] = LinesOf(Turn(2, e - 1, SAME), AT, LINES)
\* no line is taken again before all others have been
Taken(j) == LET e == ((j - 1) \div (AP + AT)) + 1
                k == ((j - 1) % (AP + AT)) + 1
            IN IF k <= AP THEN log[e][1][k] ELSE log[e][2][k - AP]
Fair == SAME => \A j \in 1..(Len(log) * (AP + AT)) : Taken(j) = ((j - 1) % LINES) + 1
Labelled == labels = <<"P", "T">>
=============================================================================
