----------------------------- MODULE ClockTrace -----------------------------
(* Recorded operations on real clocks, in exact microseconds, against Clock.   *)
EXTENDS Clock, BigInt, TraceLib
VARIABLES i, c
vars == <<i, c>>
E == Trace[i]
Init == i = 1 /\ c = Uniform(Zero, One, One)
Nope == [kind |-> "none"]
U == c.kind = "uniform"
Cur == IF c.kind = "uniform" THEN UCurrent(c) ELSE CCurrent(c)
\* what the real clock shows after the operation
Obs(d) == IF "none" \in DOMAIN E.obs THEN TRUE
          ELSE IF d.kind = "uniform"
          THEN E.obs = [cur |-> UCurrent(d), next |-> UNext(d), dur |-> UDuration(d)]
          ELSE IF d.kind = "custom"
          THEN E.obs = [cur |-> IF CCurrentOK(d) THEN CCurrent(d) ELSE <<>>,
                        next |-> IF CNextOK(d) THEN CNext(d) ELSE <<>>,
                        dur |-> IF CNextOK(d) THEN Sub(CNext(d), CCurrent(d)) ELSE <<>>]
          ELSE TRUE
Do(ok, d) == IF ok THEN E.res = "ok" /\ c' = d ELSE E.res = "exception" /\ c' = c
Step == \/ E.op = "uniform" /\ IF UniformOK(E.t, E.dt, E.end)
                               THEN E.res = "ok" /\ c' = Uniform(E.t, E.dt, E.end)
                               ELSE E.res = "exception" /\ c' = Nope
        \/ E.op = "custom" /\ E.res = "ok" /\ Sorted(E.times) /\ c' = Custom(E.times)
        \/ E.op = "tick" /\ IF U THEN Do(UTickOK(c), UTick(c)) ELSE Do(TRUE, CTick(c))
        \/ E.op = "ticks" /\ U /\ Do(UTicksOK(c, E.k), UTicks(c, E.k))
        \/ E.op = "jump" /\ U /\ Do(Leq(Zero, E.t), UJump(c, E.t))
        \/ E.op = "step" /\ U /\ Do(Lt(Zero, E.dt), USetStep(c, E.dt))
        \/ E.op = "rewind" /\ IF U THEN Do(TRUE, UReset(c, E.t, E.out)) ELSE Do(TRUE, CReset(c, E.t))
        \/ E.op = "drop" /\ IF U THEN Do(TRUE, c) ELSE Do(TRUE, CDropPast(c, E.t))
        \/ E.op = "compare" /\ c' = c /\ E.res = "ok"     \* with another clock and with a time
             /\ E.lt = Lt(Cur, E.t) /\ E.gt = Lt(E.t, Cur) /\ E.cl = Lt(Cur, E.t)
Next == i <= Len(Trace) /\ Step /\ Obs(c') /\ i' = i + 1
Spec == Init /\ [][Next]_vars
BMax == <<1, 5807, 5477, 368, 3372, 922>>      \* 9223372036854775807
BZero == BI(0)
BOne == BI(1)
=============================================================================
