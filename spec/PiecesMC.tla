------------------------------ MODULE PiecesMC ------------------------------
(* All ways to split an event into calls, with all steps, intervals or lists   *)
(* of output times, and insertions and removals in between.                    *)
EXTENDS Pieces
CONSTANTS Tmax, Calls, N,
          EARLY    \* TRUE: the output clock advances at the end of every call (a defect that the code had)
VARIABLES start, end, dt, req, now, next, written, phase, upto, left, live, used, given, taken, refused, steps
vars == <<start, end, dt, req, now, next, written, phase, upto, left, live, used, given, taken, refused, steps>>
T == 0..Tmax
Never == 3 * Tmax + 3
Requests == {[kind |-> "interval", d |-> d] : d \in 1..Tmax} \cup {[kind |-> "list", s |-> s] : s \in {x \in SUBSET T : Cardinality(x) <= 2}}
Asked(t) == IF req.kind = "interval" THEN t % req.d = 0 ELSE t \in req.s
Init == /\ start \in {0, 1} /\ end \in T /\ start < end /\ dt \in 0..Tmax /\ req \in Requests
        /\ now = start /\ next = NextAsked(req, start, Never) /\ written = <<start>> /\ phase = "client" /\ upto = start
        /\ left = Calls /\ live = 1..N /\ used = 1..N /\ given = 0 /\ taken = 0 /\ refused = 0 /\ steps = <<start>>
\* requests: entries are numbers of particles; N + 9 is one that does not exist
Wish == UNION {[1..k -> used \cup {99}] : k \in 0..2}
Call == /\ phase = "client" /\ left > 0 /\ left' = left - 1
        /\ \E t \in (now..end) \cup {end + 1}, a \in 0..1, w \in Wish :
             LET ids == IF a = 1 THEN {Cardinality(used) + 1} ELSE {}
                 there == live \cup ids
                 m(k) == {w[k]} \cap there
                 bad == Twice(Len(w), m)
             IN /\ used' = used \cup ids /\ given' = given + Cardinality(ids)
                /\ live' = IF bad THEN there ELSE there \ Matched(Len(w), m)
                /\ taken' = IF bad THEN taken ELSE taken + Cardinality(Matched(Len(w), m))
                /\ IF bad \/ t > end THEN refused' = refused + 1 /\ UNCHANGED <<phase, upto>>
                   ELSE phase' = "run" /\ upto' = t /\ UNCHANGED refused
        /\ UNCHANGED <<start, end, dt, req, now, next, written, steps>>
StepEnd == IF dt = 0 \/ now + dt > end THEN end ELSE now + dt
Write == /\ phase = "run" /\ now < upto /\ next < StepEnd
         /\ written' = Append(written, next) /\ next' = NextAsked(req, next, Never)
         /\ UNCHANGED <<start, end, dt, req, now, phase, upto, left, live, used, given, taken, refused, steps>>
Step == /\ phase = "run" /\ now < upto /\ next >= StepEnd /\ now' = StepEnd /\ steps' = Append(steps, StepEnd)
        /\ UNCHANGED <<start, end, dt, req, next, written, phase, upto, left, live, used, given, taken, refused>>
Return == /\ phase = "run" /\ now >= upto /\ phase' = "client"
          /\ next' = IF EARLY THEN NextAsked(req, next, Never) ELSE next
          /\ UNCHANGED <<start, end, dt, req, now, written, upto, left, live, used, given, taken, refused, steps>>
\* the last call goes to the end
Last == /\ phase = "client" /\ left = 0 /\ now < end /\ phase' = "run" /\ upto' = end
        /\ UNCHANGED <<start, end, dt, req, now, next, written, left, live, used, given, taken, refused, steps>>
Final == /\ phase = "client" /\ now = end /\ left = 0 /\ phase' = "done" /\ written' = Append(written, end)
         /\ UNCHANGED <<start, end, dt, req, now, next, upto, left, live, used, given, taken, refused, steps>>
Next == Call \/ Write \/ Step \/ Return \/ Last \/ Final
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* ---- guarantees
Exact == phase = "done" => {written[j] : j \in DOMAIN written} = {start, end} \cup {t \in start..end : Asked(t)}
Ascending == \A j \in 1..(Len(written) - 1) : written[j] < written[j + 1]
Written == phase = "client" => {written[j] : j \in DOMAIN written} = {start} \cup {t \in start..(now - 1) : Asked(t)}
\* the steps do not depend on how the event is split
SameSteps == \A j \in 1..Len(steps) : steps[j] = IF j = 1 THEN start ELSE IF dt = 0 \/ start + (j - 1) * dt > end THEN end ELSE start + (j - 1) * dt
Reached == phase = "client" => now = Boundary(start, end, dt, IF Len(steps) > 1 /\ upto <= steps[Len(steps) - 1] THEN now ELSE start, upto)
Count == Cardinality(live) = N + given - taken
Ends == <>(phase = "done")
=============================================================================
