----------------------------- MODULE ReproduceMC -----------------------------
(* A process executes events that draw from one generator; each event sets the *)
(* generator to its seed, which the event before has drawn first of all.       *)
(* Outputs and messages happen in between and do not draw.  The result of an    *)
(* event is a function of its seed, whatever preceded it.                      *)
EXTENDS Reproduce, Integers, TLC
CONSTANTS M, MaxEv, MaxRuns
VARIABLES gen, seed, nextseed, drawn, done, nev, phase, known, runs
vars == <<gen, seed, nextseed, drawn, done, nev, phase, known, runs>>
Adv(s) == (5 * s + 3) % M
Init == gen \in 0..(M - 1) /\ seed = 0 /\ nextseed = 0 /\ drawn = <<>> /\ done = 0 /\ nev = 0 /\ phase = "idle" /\ known = {} /\ runs = 0
Run == phase = "idle" /\ runs < MaxRuns /\ \E s \in 0..(M - 1), n \in 1..MaxEv :
         nextseed' = s /\ nev' = n /\ done' = 0 /\ phase' = "start" /\ runs' = runs + 1 /\ UNCHANGED <<gen, seed, drawn, known>>
Start == phase = "start" /\ seed' = nextseed /\ gen' = Adv(nextseed) /\ nextseed' = Adv(nextseed) /\ drawn' = <<>> /\ phase' = "go"
         /\ UNCHANGED <<done, nev, known, runs>>
Over == IF drawn = <<>> THEN FALSE ELSE Len(drawn) = 3 \/ drawn[Len(drawn)] % 3 = 0
\* physics: goes on as long as the numbers drawn say
Draw == phase = "go" /\ Len(drawn) < 3 /\ ~Over
        /\ gen' = Adv(gen) /\ drawn' = Append(drawn, gen) /\ UNCHANGED <<seed, nextseed, done, nev, phase, known, runs>>
End == phase = "go" /\ Over /\ known' = known \cup {<<<<0, seed>>, drawn>>, <<<<1, seed>>, <<nextseed>>>>}
       /\ done' = done + 1 /\ phase' = (IF done + 1 < nev THEN "start" ELSE "idle") /\ UNCHANGED <<gen, seed, nextseed, drawn, nev, runs>>
Next == Run \/ Start \/ Draw \/ End
Spec == Init /\ [][Next]_vars
Function == \A x, y \in known : x[1] = y[1] => x[2] = y[2]
=============================================================================
