----------------------------- MODULE OutputLoop -----------------------------
(* Design of the time loop: steps of the lab clock, inside each the output     *)
(* times that fall into it, in all combinations of start, end, step, and       *)
(* interval or list of output times.  Times are small integers.                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Tmax
VARIABLES start, end, dt, req, now, next, written, phase
vars == <<start, end, dt, req, now, next, written, phase>>
T == (-Tmax)..Tmax
\* requested times: multiples of an interval or an explicit set
Requests == {[kind |-> "interval", d |-> d] : d \in 1..Tmax} \cup {[kind |-> "list", s |-> s] : s \in {x \in SUBSET T : Cardinality(x) <= 3}}
Asked(r, t) == IF r.kind = "interval" THEN t % r.d = 0 ELSE t \in r.s
After(r, t) == LET S == {x \in (t + 1)..(Tmax + Tmax) : Asked(r, x)} IN IF S = {} THEN 2 * Tmax + 1 ELSE CHOOSE m \in S : \A s \in S : m <= s
Min(a, b) == IF a < b THEN a ELSE b
Init == /\ start \in T /\ end \in T /\ start < end /\ dt \in 1..Tmax /\ req \in Requests
        /\ now = start /\ next = After(req, start) /\ written = <<start>> /\ phase = "run"
StepEnd == Min(now + dt, end)
Write == /\ phase = "run" /\ now < end /\ next < StepEnd /\ written' = Append(written, next) /\ next' = After(req, next)
         /\ UNCHANGED <<start, end, dt, req, now, phase>>
Advance == /\ phase = "run" /\ now < end /\ next >= StepEnd /\ now' = StepEnd
           /\ UNCHANGED <<start, end, dt, req, next, written, phase>>
Finish == /\ phase = "run" /\ now = end /\ written' = Append(written, end) /\ phase' = "done"
          /\ UNCHANGED <<start, end, dt, req, now, next>>
Next == Write \/ Advance \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* ---- guarantees
Ascending == \A j \in 1..(Len(written) - 1) : written[j] < written[j + 1]
Exact == phase = "done" => {written[j] : j \in DOMAIN written} = {start, end} \cup {t \in start..end : Asked(req, t)}
Ends == <>(phase = "done")
=============================================================================
