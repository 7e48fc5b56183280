------------------------------- MODULE Pieces -------------------------------
(* Driving an event in pieces: the client asks for the evolution up to chosen  *)
(* times, hands particles in and asks for removals in between.  Times are      *)
(* small integers.  The time loop is that of OutputLoop, entered once per call.*)
EXTENDS Integers, Sequences, FiniteSets
\* ---- pure parts, shared with the validation of recorded calls
\* end of the evolution asked for until T: the first step boundary not before it (dt = 0: one step for the whole event)
Boundary(start, end, dt, now, T) ==
  IF T <= now THEN now
  ELSE IF dt = 0 THEN end
  ELSE LET k == -((-(T - start)) \div dt) IN IF start + k * dt < end THEN start + k * dt ELSE end
\* next requested output time after t; r: an interval d or a set of times
NextAsked(r, t, never) ==
  IF r.kind = "interval" THEN (t \div r.d + 1) * r.d
  ELSE LET S == {x \in r.s : x > t} IN IF S = {} THEN never ELSE CHOOSE m \in S : \A x \in S : m <= x
\* what becomes of a request to remove: matches(k) is the set of present particles that entry k describes
Matched(n, matches(_)) == UNION {matches(k) : k \in 1..n}
Twice(n, matches(_)) == \E j, k \in 1..n : j # k /\ matches(j) \cap matches(k) # {}
Missing(n, matches(_)) == Cardinality({k \in 1..n : matches(k) = {}})
=============================================================================
