------------------------------ MODULE DecaysMC -------------------------------
(* Decays during an evolution of several steps and forced decays at its end,   *)
(* for a small table with chains of decays.                                    *)
EXTENDS Decays, TLC
CONSTANTS STEPS, DT, N
Mode(o, d) == [out |-> o, dilepton |-> d]
T == <<[mass |-> 1, stable |-> TRUE, modes |-> <<>>],                                                \* 1 stable
       [mass |-> 3, stable |-> TRUE, modes |-> <<Mode(<<1, 1>>, FALSE)>>],                           \* 2 long-lived
       [mass |-> 4, stable |-> FALSE, modes |-> <<Mode(<<1, 1>>, FALSE), Mode(<<1, 2>>, TRUE)>>],    \* 3
       [mass |-> 8, stable |-> FALSE, modes |-> <<Mode(<<3, 1>>, FALSE), Mode(<<3, 3>>, FALSE), Mode(<<1, 1, 2>>, FALSE)>>]>>  \* 4
VARIABLES ps, now, phase, force, every, initial, log
vars == <<ps, now, phase, force, every, initial, log>>
Masses(k) == IF T[k].stable THEN {T[k].mass} ELSE MinMass(T, k)..(T[k].mass + 1)
P == {[k |-> k, m |-> m, form |-> f, nc |-> c] : k \in DOMAIN T, m \in 1..9, f \in {0, DT + 1, STEPS * DT + 1}, c \in 0..1}
Good == {p \in P : p.m \in Masses(p.k)}
Init == /\ \E a, b \in Good : ps \in {<<a>>} \cup (IF N > 1 THEN {<<a, b>>} ELSE {})
        /\ now = 0 /\ phase = "run" /\ force \in BOOLEAN /\ every \in BOOLEAN /\ initial \in BOOLEAN /\ log = <<>>
RECURSIVE Daughters(_, _)
\* masses of the daughters: each at least its least mass, together no more than the mother's
Daughters(o, m) == IF o = <<>> THEN {<<>>}
                   ELSE UNION {{<<x>> \o r : r \in Daughters(Tail(o), m - x)} : x \in {y \in Masses(o[1]) : y + SumOver(T, Tail(o), 1) <= m}}
Born(o, ms, t) == [n \in DOMAIN o |-> [k |-> o[n], m |-> ms[n], form |-> t, nc |-> 1]]
Without(n) == SubSeq(ps, 1, n - 1) \o SubSeq(ps, n + 1, Len(ps))
Decay(n, t, dil) == \E m \in Open(T, ps[n].k, ps[n].m, dil) : \E ms \in Daughters(T[ps[n].k].modes[m].out, ps[n].m) :
                       /\ ps' = Without(n) \o Born(T[ps[n].k].modes[m].out, ms, t)
                       /\ log' = <<[p |-> ps[n], t |-> t, phase |-> phase, mode |-> m]>>
\* a decay somewhere in the current interval; the next intervals offer it again
Run == /\ phase = "run" /\ \E t \in now..(DT * STEPS - 1) : \E n \in DOMAIN ps :
             /\ MayDecay(T, ps[n].k, ps[n].nc, initial) /\ ps[n].form <= t /\ Decay(n, t, FALSE) /\ now' = t
       /\ UNCHANGED <<phase, force, every, initial>>
End == phase = "run" /\ phase' = "final" /\ now' = DT * STEPS /\ UNCHANGED <<ps, force, every, initial, log>>
Left == {n \in DOMAIN ps : MustDecay(T, ps[n].k, force, every)}
Final == /\ phase = "final" /\ \E n \in Left : (\A l \in Left : n <= l) /\ Decay(n, now, TRUE)
         /\ UNCHANGED <<now, phase, force, every, initial>>
Stop == phase = "final" /\ Left = {} /\ phase' = "done" /\ UNCHANGED <<ps, now, force, every, initial, log>>
Next == Run \/ End \/ Final \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* ---- what follows
Causal == \A n \in DOMAIN log : log[n].phase = "run" => ~T[log[n].p.k].stable /\ log[n].p.form <= log[n].t /\ log[n].t < DT * STEPS
                                                          /\ (~initial => log[n].p.nc > 0)
Heavy == \A n \in DOMAIN ps : ps[n].m >= MinMass(T, ps[n].k)
NoneLeft == (phase = "done" /\ force) => \A n \in DOMAIN ps : T[ps[n].k].stable /\ (every => T[ps[n].k].modes = <<>>)
Disabled == (phase = "done" /\ ~force) => \A n \in DOMAIN log : log[n].phase = "run"
\* whatever is left to be decayed at the end can decay: the final loop cannot get stuck
Possible == \A n \in DOMAIN ps : (~T[ps[n].k].stable /\ ps[n].m > MinMass(T, ps[n].k)) => Open(T, ps[n].k, ps[n].m, TRUE) # {}
Ends == <>(phase = "done" \/ \E n \in Left : Open(T, ps[n].k, ps[n].m, TRUE) = {})
=============================================================================
