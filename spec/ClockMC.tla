------------------------------- MODULE ClockMC -------------------------------
(* Exhaustive exploration of all operation sequences on small clocks.          *)
EXTENDS Clock, TLC
IAdd(a, b) == a + b
ISub(a, b) == a - b
IMul(a, b) == a * b
ILeq(a, b) == a <= b
IDiv(a, b) == a \div b
CONSTANTS T, Steps, Depth
VARIABLES c, ticked, seen, depth
vars == <<c, ticked, seen, depth>>
Lists == {<<>>, <<1>>, <<0, 2>>, <<1, 2, 5>>, <<-2, 0, 3>>}
Init == /\ \/ \E t0 \in -2..2, dt \in Steps, e \in -1..T : UniformOK(t0, dt, e) /\ c = Uniform(t0, dt, e)
           \/ \E l \in Lists : c = Custom(l)
        /\ ticked = Zero /\ seen = <<>> /\ depth = 0
U == c.kind = "uniform"
Tick == /\ U /\ UTickOK(c) /\ c' = UTick(c) /\ ticked' = ticked + c.dt /\ seen' = seen
Ticks == /\ U /\ \E k \in 0..3 : UTicksOK(c, k) /\ c' = UTicks(c, k) /\ ticked' = ticked + k * c.dt /\ seen' = seen
Jump == /\ U /\ \E t \in 0..2 : c' = UJump(c, t) /\ ticked' = ticked + t /\ seen' = seen
SetStep == /\ U /\ \E d \in Steps : c' = USetStep(c, d) /\ UNCHANGED <<ticked, seen>>
Reset == /\ U /\ \E t \in -2..T, o \in BOOLEAN : c' = UReset(c, t, o) /\ ticked' = c'.base - c.base + (c.base - Shown(c)) + ticked /\ seen' = seen
CTickA == /\ ~U /\ CNextOK(c) /\ c' = CTick(c) /\ seen' = Append(seen, CCurrent(c')) /\ ticked' = ticked
CResetA == /\ ~U /\ \E t \in -2..2 : c' = CDropPast(CReset(c, t), t) /\ seen' = <<>> /\ ticked' = ticked
Next == depth < Depth /\ depth' = depth + 1 /\ (Tick \/ Ticks \/ Jump \/ SetStep \/ Reset \/ CTickA \/ CResetA)
Spec == Init /\ [][Next]_vars
NeverPastEnd == U => UCurrent(c) <= c.end /\ UNext(c) <= c.end
Duration == U => UDuration(c) = UNext(c) - UCurrent(c) /\ UDuration(c) >= 0 /\ UDuration(c) <= c.dt
\* the last step, and only the last one, is shortened
OnlyLastShort == U /\ UDuration(c) < c.dt => UNext(c) = c.end
OutputAligned == [][U => \A t \in -2..T : LET r == UReset(c, t, TRUE) IN r.base <= t /\ t < r.base + r.dt /\ r.base % r.dt = 0]_vars
NoDrift == [][U /\ c'.kind = "uniform" => Shown(c') - Shown(c) = ticked' - ticked]_vars
Monotone == [][U /\ c'.base >= c.base /\ c'.n >= c.n => UCurrent(c') >= UCurrent(c)]_vars
ListOnce == ~U => /\ Sorted(c.times) /\ seen = SubSeq(c.times, 1, c.k)
                  /\ (CNextOK(c) => CNext(c) > CCurrent(c) \/ (c.k = 0 /\ c.start = 0 /\ Len(seen) = 0))
=============================================================================
