-------------------------------- MODULE Clock --------------------------------
(* The two kinds of clock: fixed step (integer ticks of one microsecond) and   *)
(* list of times.  Arithmetic is a parameter, so that the same definitions are *)
(* model-checked with small integers and bound to traces with wide ones.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Add(_, _), Sub(_, _), Mul(_, _), Leq(_, _), FloorDiv(_, _), Zero, One, MaxCount
Lt(a, b) == Leq(a, b) /\ a # b
Min2(a, b) == IF Leq(a, b) THEN a ELSE b

\* ---- fixed-step clock: [kind, dt, base, n, end]
UniformOK(t0, dt, tend) == Lt(Zero, dt) /\ Lt(t0, tend)
Uniform(t0, dt, tend) == [kind |-> "uniform", dt |-> dt, base |-> t0, n |-> Zero, end |-> tend]
Shown(c) == Add(c.base, Mul(c.dt, c.n))                 \* where it would be without an end
UCurrent(c) == Min2(Shown(c), c.end)
UNext(c) == Min2(Add(Shown(c), c.dt), c.end)
UDuration(c) == IF Lt(c.end, Shown(c)) THEN Zero ELSE Sub(UNext(c), UCurrent(c))
UTickOK(c) == Lt(c.n, Sub(MaxCount, One))
UTick(c) == [c EXCEPT !.n = Add(@, One)]
UTicksOK(c, k) == Lt(c.n, Sub(MaxCount, k))
UTicks(c, k) == [c EXCEPT !.n = Add(@, k)]
UJump(c, t) == [c EXCEPT !.base = Add(@, t)]
USetStep(c, dt) == [c EXCEPT !.base = Shown(c), !.n = Zero, !.dt = dt]
UReset(c, t, out) == [c EXCEPT !.n = Zero, !.base = IF out THEN Mul(FloorDiv(t, c.dt), c.dt) ELSE t]

\* ---- clock with a list: [kind, times (ascending), all times given, k, start]
Custom(ts) == [kind |-> "custom", times |-> ts, all |-> ts, k |-> 0, start |-> Zero]
CCurrentOK(c) == c.k <= Len(c.times)
CCurrent(c) == IF c.k = 0 THEN c.start ELSE c.times[c.k]
CNextOK(c) == c.k < Len(c.times)
CNext(c) == c.times[c.k + 1]
CTick(c) == [c EXCEPT !.k = @ + 1]
CReset(c, t) == [c EXCEPT !.k = 0, !.start = t, !.times = c.all]
CDropPast(c, t) == [c EXCEPT !.times = SelectSeq(@, LAMBDA x : Lt(t, x))]
Sorted(s) == \A i \in 1..(Len(s) - 1) : Lt(s[i], s[i + 1])
==============================================================================
