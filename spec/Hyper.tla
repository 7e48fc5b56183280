------------------------------- MODULE Hyper ---------------------------------
(* Recording of particles on a surface of constant proper time: the surface is *)
(* searched for interval by interval, intervals end with steps and with        *)
(* interactions, and a particle that is found is recorded and leaves.          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS TAU2, TPAST, TMAX, ZMAX, MAXSTEP
\* time t, position z in half units (2z), velocity v in half units (2v), so that everything stays integer: 4(t^2 - z^2) = 4t^2 - z^2
In(t, z) == 2 * t > (IF z < 0 THEN -z ELSE z)          \* inside of the future light cone
Beyond(t, z) == In(t, z) /\ 4 * t * t - z * z >= 4 * TAU2
Strictly(t, z) == In(t, z) /\ 4 * t * t - z * z > 4 * TAU2
\* the surface is reached between two points of a straight line
Crossed(t0, z0, t1, z1) == Beyond(t1, z1) /\ ~Strictly(t0, z0)
VARIABLES t, z, v, cut, state, hit, born
vars == <<t, z, v, cut, state, hit, born>>
Init == /\ t \in -TPAST..2 /\ z \in -ZMAX..ZMAX /\ v \in -1..1 /\ cut \in BOOLEAN
        /\ state = "flies" /\ hit = 0 /\ born = <<t, z>>
\* one search interval: recorded at the crossing, or propagated to its end
Step == /\ state = "flies" /\ t < TMAX
        /\ \E d \in 1..MAXSTEP :
             /\ t + d <= TMAX
             /\ t' = t + d /\ z' = z + v * d
             /\ IF Crossed(t, z, t + d, z + v * d) /\ ~cut
                THEN state' = "recorded" /\ hit' = hit + 1
                ELSE UNCHANGED <<state, hit>>
        /\ UNCHANGED <<v, cut, born>>
\* an interaction changes the velocity (and makes a new particle, born there)
Kick == state = "flies" /\ t < TMAX /\ \E w \in -1..1 : w # v /\ v' = w /\ born' = <<t, z>> /\ UNCHANGED <<t, z, cut, state, hit>>
End == state = "flies" /\ t = TMAX /\ state' = "left" /\ UNCHANGED <<t, z, v, cut, hit, born>>
Next == Step \/ Kick \/ End
Spec == Init /\ [][Next]_vars
Once == hit <= 1
\* a recorded particle had not been beyond the surface when it was born; a particle that is still there never reached it
OnTheWay == state = "recorded" => ~Strictly(born[1], born[2]) /\ Beyond(t, z)
Missed == (state \in {"flies", "left"} /\ ~cut) => (~Crossed(born[1], born[2], t, z) \/ born = <<t, z>>)
NeverCut == state = "recorded" => ~cut
\* inside the cone the proper time of straight motion never decreases: what decides is the ends of an interval, not the interval's length
Monotone == [][In(t, z) /\ state = "flies" => 4 * t' * t' - z' * z' >= 4 * t * t - z * z]_vars
=============================================================================
