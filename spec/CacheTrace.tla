----------------------------- MODULE CacheTrace -----------------------------
(* File operations of real processes in one directory of tabulations, in the  *)
(* order in which they happened, and what each process saw of the integrals.  *)
EXTENDS TraceLib, Cache
VARIABLES i, refs, limited
vars == <<lock, file, pr, i, refs, limited>>
E == Trace[i]
Rest == UNCHANGED <<refs, limited>>
Case == E.op = "case" /\ lock' = Free /\ file' = <<>> /\ pr' = <<>> /\ refs' = E.refs /\ limited' = E.limited
Start == E.op = "start" /\ E.p = Len(pr) + 1 /\ pr' = Append(pr, New(E.cfg, {})) /\ UNCHANGED <<lock, file>> /\ Rest
DoLock == E.op = "open" /\ E.kind = "lock" /\ E.mode = "x" /\ Lock(E.p, E.ok) /\ Rest
LockClose == E.op = "close" /\ E.kind = "lock" /\ lock = E.p /\ UNCHANGED cvars /\ Rest
Read == E.op = "open" /\ E.mode = "r" /\ pr[E.p].has /\ UNCHANGED cvars /\ Rest
\* (in the trace a file counts as written when it is closed)
DoOpen == E.op = "open" /\ E.kind # "lock" /\ E.mode = "w" /\ (IF E.ok THEN Open(E.p, E.f) ELSE limited /\ UNCHANGED cvars) /\ Rest
DoClose == /\ E.op = "close" /\ E.kind # "lock" /\ Rest
           /\ IF E.f \in pr[E.p].open
              THEN /\ Upd(E.p, [pr[E.p] EXCEPT !.open = @ \ {E.f}]) /\ UNCHANGED lock
                   /\ PutFile(E.f, Content(pr[E.p].cfg, pr[E.p].cfg, ~limited))
              ELSE UNCHANGED cvars
Other == E.op \in {"stat", "mkdir"} /\ UNCHANGED cvars /\ Rest
DoUnlock == E.op = "unlink" /\ E.kind = "lock" /\ E.ok /\ Unlock(E.p) /\ Rest
\* what a process works with is what it would have computed itself
DoExit == E.op = "exit" /\ E.ok /\ E.saw = refs[pr[E.p].cfg] /\ Exit(E.p) /\ Rest
DoKill == E.op = "kill" /\ Kill(E.p) /\ Rest
DoClear == E.op = "clear" /\ (Clear \/ lock = Free) /\ lock' = Free /\ UNCHANGED <<file, pr>> /\ Rest
\* something was done to a file behind the program's back
Tamper == E.op = "tamper" /\ PutFile(E.f, Content(E.head, E.head, E.whole)) /\ UNCHANGED <<lock, pr>> /\ Rest
Remove == E.op = "remove" /\ file' = [k \in DOMAIN file \ {E.f} |-> file[k]] /\ UNCHANGED <<lock, pr>> /\ Rest
\* by: the configurations whose undisturbed file it is
Dir == LET D == {E.files[j] : j \in DOMAIN E.files} IN
       /\ E.op = "dir" /\ E.lock = (lock # Free) /\ {x.f : x \in D} \subseteq DOMAIN file
       /\ \A x \in D : file[x.f].whole /\ file[x.f].head # 0 => file[x.f].vals \in {x.by[j] : j \in DOMAIN x.by}
       /\ UNCHANGED cvars /\ Rest
Init == i = 1 /\ lock = Free /\ file = <<>> /\ pr = <<>> /\ refs = <<>> /\ limited = FALSE
Next == i <= Len(Trace) /\ i' = i + 1
        /\ (Case \/ Start \/ DoLock \/ LockClose \/ Read \/ DoOpen \/ DoClose \/ Other \/ DoUnlock \/ DoExit \/ DoKill \/ DoClear \/ Tamper \/ Remove \/ Dir)
Spec == Init /\ [][Next]_vars
=============================================================================
