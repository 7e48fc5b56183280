------------------------------ MODULE FilesMC ------------------------------
EXTENDS Files, TLC, Json
CONSTANTS NP, Results, Pics, Crashes, Gen
VARIABLES err, kills, sched
vars == <<lock, fs, pr, err, kills, sched>>
P == 1..NP
S(p) == sched' = IF Gen THEN Append(sched, p) ELSE sched
\* a process that has met an error only closes its files and unlocks
ResK == {<<f, TRUE>> : f \in Results}
PicK == {<<f, FALSE>> : f \in Pics}
Written(p) == pr[p].open \cup pr[p].closed
Ready(p) == fs # <<>> /\ CONFIG \in DOMAIN fs /\ fs[CONFIG] = [st |-> "full", by |-> p]
Step(p) ==
  \/ \E b \in BOOLEAN : Lock(p, b)
  \/ ~err[p] /\ ~Ready(p) /\ CONFIG \notin pr[p].open /\ Open(p, CONFIG, "config")
  \/ ~err[p] /\ Ready(p) /\ pr[p].renamed = {} /\ \E k \in ResK \ Written(p) : Open(p, k, "res")
  \/ ~err[p] /\ Ready(p) /\ ResK \subseteq pr[p].open /\ \E k \in PicK \ Written(p) : Open(p, k, "pic")
  \/ CONFIG \in pr[p].open /\ Close(p, CONFIG, TRUE)
  \/ \E k \in PicK : k \in pr[p].open /\ Close(p, k, TRUE)
  \* results are closed at the end, or after an error; closing can fail
  \/ (err[p] \/ (ResK \cup PicK) \subseteq (Written(p) \cup {<<f, TRUE>> : f \in pr[p].renamed}))
     /\ \E k \in ResK, b \in BOOLEAN : k \in pr[p].open /\ Close(p, k, b)
  \/ ~err[p] /\ \E f \in Results : Rename(p, f)
  \/ (err[p] \/ pr[p].pc = "refused" \/ (Ready(p) /\ Results = pr[p].renamed) \/ pr[p].bad) /\ Unlock(p)
  \/ \E b \in BOOLEAN : (b => ~err[p]) /\ (~b => err[p] \/ pr[p].pc = "refused") /\ Exit(p, b)
Init == /\ lock = Free /\ fs = <<>> /\ \E F \in SUBSET P : pr = [p \in P |-> New(p \in F)]
        /\ err = [p \in P |-> FALSE] /\ kills = 0 /\ sched = <<>>
Fail(p) == ~err[p] /\ lock = p /\ pr[p].renamed = {} /\ pr[p].pc # "refused" /\ err' = [err EXCEPT ![p] = TRUE] /\ UNCHANGED <<lock, fs, pr, kills, sched>>
Next == \/ \E p \in P : Step(p) /\ S(p) /\ UNCHANGED <<err, kills>>
        \/ ~Gen /\ \E p \in P : Fail(p)
        \/ kills < Crashes /\ \E p \in P : Kill(p) /\ kills' = kills + 1 /\ UNCHANGED <<err, sched>>
        \/ Clear /\ UNCHANGED <<err, kills, sched>>
Spec == Init /\ [][Next]_vars
\* ---- what a user relies on ------------------------------------------------
\* a result under its final name is complete
Complete == \A k \in DOMAIN fs : k[1] \in Results /\ ~k[2] => fs[k].st = "full"
OneWriter == Cardinality({p \in P : pr[p].open # {}}) <= 1
Released == \A p \in P : pr[p].pc \in {"done", "failed"} => lock # p
\* a run that ended well and was not overwritten has all its results
Whole == \A p \in P : pr[p].pc = "done" /\ ~pr[p].bad /\ (\A q \in P \ {p} : ~pr[q].force) =>
           \A f \in Results : fs[<<f, FALSE>>] = [st |-> "full", by |-> p]
\* without being told to overwrite nobody changes what another run has left
Kept == \A p \in P : pr[p].pc = "done" /\ (\A q \in P : ~pr[q].force) => (\A k \in DOMAIN fs : (fs[k].by = p \/ k[2]))
RefusedClean == \A p \in P : pr[p].pc = "refused" => \A k \in DOMAIN fs : fs[k].by # p
\* behaviours to be replayed: once all processes have ended
AllDone == \A p \in P : pr[p].pc \in {"done", "failed", "killed"}
Out == Gen /\ AllDone => PrintT("GEN " \o ToJson([force |-> [p \in P |-> pr[p].force], sched |-> sched]))
=============================================================================
