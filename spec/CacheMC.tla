------------------------------- MODULE CacheMC -------------------------------
EXTENDS Cache, TLC, Json
CONSTANTS NP, NC, N, Kills, Damages, Early, Gen
VARIABLES kills, damages, sched
vars == <<lock, file, pr, kills, damages, sched>>
P == 1..NP
Init == /\ lock = Free /\ file = <<>> /\ \E f \in [P -> 1..NC] : pr = [p \in P |-> New(f[p], N)]
        /\ kills = 0 /\ damages = 0 /\ sched = <<>>
Todo(p, n) == pr[p].got[n] = 0
\* a computed integral is stored
Step(p) ==
  \/ \E b \in BOOLEAN : Lock(p, b)
  \/ \E n \in N : Todo(p, n) /\ (IF pr[p].has THEN (IF Usable(p, n) THEN Load(p, n) ELSE Open(p, n)) ELSE Compute(p, n))
  \/ \E n \in pr[p].open : \E b \in BOOLEAN : Todo(p, n) /\ Write(p, n, b)
  \/ \E n \in pr[p].open : Todo(p, n) /\ Compute(p, n)
  \/ \E n \in pr[p].open : ~Todo(p, n) /\ Close(p, n)
  \/ (\A n \in N : ~Todo(p, n)) /\ (Unlock(p) \/ Exit(p))
AllDone == \A p \in P : pr[p].pc \in {"done", "killed"}
Next == \/ \E p \in P : Step(p) /\ sched' = (IF Gen THEN Append(sched, p) ELSE sched) /\ UNCHANGED <<kills, damages>>
        \/ kills < Kills /\ \E p \in P : Kill(p) /\ kills' = kills + 1 /\ UNCHANGED <<damages, sched>>
        \/ damages < Damages /\ \E n \in N : Damage(n) /\ damages' = damages + 1 /\ UNCHANGED <<kills, sched>>
        \/ (IF Early THEN ClearEarly ELSE Clear) /\ UNCHANGED <<kills, damages, sched>>
        \/ AllDone /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* nobody ever works with an integral of something else, whatever happens to files and locks
Right == \A p \in P : \A n \in N : pr[p].got[n] \in {0, pr[p].cfg}
Honest == \A n \in DOMAIN file : file[n].whole => file[n].head = file[n].vals
OneWriter == Early \/ Cardinality({p \in P : pr[p].has /\ pr[p].pc = "run"}) <= 1
Released == \A p \in P : pr[p].pc = "done" => lock # p
\* a file that is open is not whole before it is written; what a killed process left behind is not used
Out == Gen /\ AllDone => PrintT("GEN " \o ToJson([cfg |-> [p \in P |-> pr[p].cfg], sched |-> sched]))
=============================================================================
