-------------------------------- MODULE Cache --------------------------------
(* Processes that share a directory of tabulated integrals.  Each process has *)
(* a configuration (SMASH version, particles, decay modes).  A file has a     *)
(* head that says to which configuration it belongs, values, and is whole or  *)
(* not.  Only the process that has the lock looks at files and writes them;   *)
(* the others compute everything themselves and nobody waits.                 *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES lock, file, pr
cvars == <<lock, file, pr>>
Free == 0
\* head, vals: configurations (0: none); a whole file is what was written once, unchanged
Content(h, v, w) == [head |-> h, vals |-> v, whole |-> w]
New(c, N) == [cfg |-> c, pc |-> "start", has |-> FALSE, got |-> [n \in N |-> 0], open |-> {}]
Upd(p, r) == pr' = [pr EXCEPT ![p] = r]
Lock(p, ok) == /\ pr[p].pc = "start" /\ ok = (lock = Free)
               /\ Upd(p, [pr[p] EXCEPT !.pc = "run", !.has = ok]) /\ lock' = (IF ok THEN p ELSE lock) /\ UNCHANGED file
\* what may be taken from a file
Usable(p, n) == n \in DOMAIN file /\ file[n].whole /\ file[n].head = pr[p].cfg
Load(p, n) == pr[p].pc = "run" /\ pr[p].has /\ Usable(p, n) /\ Upd(p, [pr[p] EXCEPT !.got[n] = file[n].vals]) /\ UNCHANGED <<lock, file>>
Compute(p, n) == pr[p].pc = "run" /\ Upd(p, [pr[p] EXCEPT !.got[n] = pr[p].cfg]) /\ UNCHANGED <<lock, file>>
PutFile(n, x) == file' = [k \in DOMAIN file \cup {n} |-> IF k = n THEN x ELSE file[k]]
\* opening for writing makes the file empty
Open(p, n) == pr[p].pc = "run" /\ pr[p].has /\ n \notin pr[p].open
              /\ Upd(p, [pr[p] EXCEPT !.open = @ \cup {n}]) /\ PutFile(n, Content(0, 0, FALSE)) /\ UNCHANGED lock
\* everything, or (a full disk) a part of it
Write(p, n, all) == n \in pr[p].open /\ PutFile(n, Content(pr[p].cfg, pr[p].cfg, all)) /\ UNCHANGED <<lock, pr>>
Close(p, n) == n \in pr[p].open /\ Upd(p, [pr[p] EXCEPT !.open = @ \ {n}]) /\ UNCHANGED <<lock, file>>
Unlock(p) == pr[p].pc = "run" /\ pr[p].has /\ pr[p].open = {} /\ Upd(p, [pr[p] EXCEPT !.has = FALSE, !.pc = "after"])
             /\ lock' = Free /\ UNCHANGED file
Exit(p) == pr[p].pc \in {"run", "after"} /\ ~pr[p].has /\ Upd(p, [pr[p] EXCEPT !.pc = "done"]) /\ UNCHANGED <<lock, file>>
Kill(p) == pr[p].pc \in {"start", "run", "after"} /\ Upd(p, [pr[p] EXCEPT !.pc = "killed", !.open = {}]) /\ UNCHANGED <<lock, file>>
\* the lock of a process that is no more is removed by hand
Clear == lock # Free /\ pr[lock].pc = "killed" /\ lock' = Free /\ UNCHANGED <<file, pr>>
ClearEarly == lock # Free /\ lock' = Free /\ UNCHANGED <<file, pr>>
\* a file is damaged, or one that belongs to something else is put there
Damage(n) == n \in DOMAIN file /\ \E w \in {Content(file[n].head, file[n].vals, FALSE), Content(0, 0, FALSE)} : PutFile(n, w) /\ UNCHANGED <<lock, pr>>
=============================================================================
