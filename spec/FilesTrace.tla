----------------------------- MODULE FilesTrace -----------------------------
(* File operations of real processes in one directory, recorded by            *)
(* harness/fsshim.c, in the order in which they happened.  f: the name without *)
(* the temporary ending, t: whether it had it.                                 *)
EXTENDS TraceLib, Files
VARIABLES i, inject
vars == <<lock, fs, pr, i, inject>>
E == Trace[i]
K == <<E.f, E.t>>
FromRecord(S) == [k \in {<<x.f, x.t>> : x \in {S[j] : j \in DOMAIN S}} |->
                    [st |-> (CHOOSE x \in {S[j] : j \in DOMAIN S} : <<x.f, x.t>> = k).st,
                     by |-> (CHOOSE x \in {S[j] : j \in DOMAIN S} : <<x.f, x.t>> = k).by]]
\* a directory: new, or as left by something before
Begin == E.op = "case" /\ lock' = E.lock /\ fs' = FromRecord(E.files) /\ pr' = <<>> /\ inject' = E.inject
Start == /\ E.op = "start" /\ E.p = Len(pr) + 1 /\ pr' = Append(pr, [New(E.force) EXCEPT !.pc = IF E.info THEN "info" ELSE "start"]) /\ UNCHANGED <<lock, fs, inject>>
DoLock == E.op = "open" /\ E.kind = "lock" /\ E.mode = "x" /\ Lock(E.p, E.ok) /\ UNCHANGED inject
\* the descriptor of the lock is closed at once
LockClose == E.op = "close" /\ E.kind = "lock" /\ lock = E.p /\ UNCHANGED <<lock, fs, pr, inject>>
DoLook == E.op = "stat" /\ E.kind # "lock" /\ Look(K, E.ok) /\ UNCHANGED inject
LookLock == E.op = "stat" /\ E.kind = "lock" /\ E.ok = (lock # Free) /\ UNCHANGED <<lock, fs, pr, inject>>
DoOpen == /\ E.op = "open" /\ E.kind # "lock" /\ E.mode \in {"w", "a", "x"} /\ UNCHANGED inject
          /\ IF E.ok THEN Open(E.p, K, E.kind)
             ELSE inject /\ Upd(E.p, [pr[E.p] EXCEPT !.bad = TRUE]) /\ UNCHANGED <<lock, fs>>
Read == E.op = "open" /\ E.mode = "r" /\ UNCHANGED <<lock, fs, pr, inject>>
DoClose == E.op = "close" /\ E.kind # "lock" /\ K \in pr[E.p].open /\ (E.ok \/ inject) /\ Close(E.p, K, E.ok) /\ UNCHANGED inject
ReadClose == E.op = "close" /\ E.kind # "lock" /\ K \notin pr[E.p].open /\ UNCHANGED <<lock, fs, pr, inject>>
DoRename == E.op = "rename" /\ E.t /\ E.to = E.f /\ ~E.tot /\ UNCHANGED inject
            /\ IF E.ok THEN Rename(E.p, E.f) ELSE inject /\ Upd(E.p, [pr[E.p] EXCEPT !.bad = TRUE]) /\ UNCHANGED <<lock, fs>>
DoUnlock == E.op = "unlink" /\ E.kind = "lock" /\ E.ok /\ Unlock(E.p) /\ UNCHANGED inject
NothingThere == E.op = "unlink" /\ ~E.ok /\ (IF E.kind = "lock" THEN lock = Free ELSE K \notin DOMAIN fs) /\ UNCHANGED <<lock, fs, pr, inject>>
Mkdir == E.op = "mkdir" /\ UNCHANGED <<lock, fs, pr, inject>>
DoExit == E.op = "exit" /\ UNCHANGED inject
          /\ IF pr[E.p].pc = "info" THEN Upd(E.p, [pr[E.p] EXCEPT !.pc = "done"]) /\ UNCHANGED <<lock, fs>> ELSE Exit(E.p, E.ok)
DoKill == E.op = "kill" /\ Kill(E.p) /\ UNCHANGED inject
DoClear == E.op = "clear" /\ Clear /\ UNCHANGED inject
\* what is in the directory: by is the number of the process whose complete file it is, or 0
Dir == LET D == {E.files[j] : j \in DOMAIN E.files} IN
       /\ E.op = "dir" /\ {<<x.f, x.t>> : x \in D} = DOMAIN fs /\ E.lock = (lock # Free)
       /\ \A x \in D : fs[<<x.f, x.t>>].st = "full" /\ ~(inject /\ x.t) => fs[<<x.f, x.t>>].by \in {x.by[j] : j \in DOMAIN x.by}
       \* nothing incomplete under the name of a result
       /\ \A x \in D : x.kind = "res" /\ ~x.t => fs[<<x.f, x.t>>].st = "full"
       /\ UNCHANGED <<lock, fs, pr, inject>>
Init == i = 1 /\ lock = Free /\ fs = <<>> /\ pr = <<>> /\ inject = FALSE
Next == i <= Len(Trace) /\ i' = i + 1
        /\ (Begin \/ Start \/ DoLock \/ LockClose \/ DoLook \/ LookLock \/ DoOpen \/ Read \/ DoClose \/ ReadClose \/ DoRename \/ DoUnlock \/ NothingThere \/ Mkdir
            \/ DoExit \/ DoKill \/ DoClear \/ Dir)
Spec == Init /\ [][Next]_vars
=============================================================================
