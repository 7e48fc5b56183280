------------------------------- MODULE Files -------------------------------
(* Processes writing results into one directory.                             *)
(*                                                                           *)
(* A process takes the lock (created exclusively), looks for the record of a *)
(* previous run (config), writes its own, writes each result under a         *)
(* temporary name, closes it, renames it, and removes the lock.  It can fail *)
(* (unwinding: files are closed, not renamed; the lock is removed) or be     *)
(* killed at any point.                                                      *)
(* fs: <<name, temporary?>> -> [st, by]; kinds of names: "res" result (only  *)
(* ever written under its temporary name), "pic" and "config" written        *)
(* directly.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets
Free == 0
Stale == -1
CONFIG == <<"config.yaml", FALSE>>
VARIABLES lock, fs, pr
fvars == <<lock, fs, pr>>
New(force) == [force |-> force, pc |-> "start", open |-> {}, closed |-> {}, renamed |-> {}, bad |-> FALSE]
Upd(p, r) == pr' = [pr EXCEPT ![p] = r]
Put(k, v) == fs' = [x \in DOMAIN fs \cup {k} |-> IF x = k THEN v ELSE fs[x]]
Writing(p) == lock = p /\ pr[p].pc = "locked"
Lock(p, ok) == /\ pr[p].pc = "start" /\ ok = (lock = Free)
               \* the record of a previous run, looked for under the lock, stops a process unless it was told to overwrite
               /\ IF ok THEN lock' = p /\ Upd(p, [pr[p] EXCEPT !.pc = IF CONFIG \in DOMAIN fs /\ ~pr[p].force THEN "refused" ELSE "locked"])
                  ELSE UNCHANGED lock /\ Upd(p, [pr[p] EXCEPT !.pc = "refused"])
               /\ UNCHANGED fs
Look(k, there) == there = (k \in DOMAIN fs) /\ UNCHANGED fvars
Open(p, k, kind) == /\ Writing(p) /\ k \notin pr[p].open
                    /\ kind = "res" => k[2]
                    /\ Put(k, [st |-> "part", by |-> p])
                    /\ Upd(p, [pr[p] EXCEPT !.open = @ \cup {k}, !.closed = @ \ {k}])
                    /\ UNCHANGED lock
Close(p, k, ok) == /\ k \in pr[p].open
                   /\ Upd(p, [pr[p] EXCEPT !.open = @ \ {k}, !.closed = IF ok THEN @ \cup {k} ELSE @, !.bad = @ \/ ~ok])
                   /\ IF ok THEN Put(k, [st |-> "full", by |-> p]) ELSE UNCHANGED fs
                   /\ UNCHANGED lock
Rename(p, f) == LET k == <<f, TRUE>> IN
                /\ lock = p /\ k \in pr[p].closed
                /\ fs' = [x \in (DOMAIN fs \cup {<<f, FALSE>>}) \ {k} |-> IF x = <<f, FALSE>> THEN fs[k] ELSE fs[x]]
                /\ Upd(p, [pr[p] EXCEPT !.closed = @ \ {k}, !.renamed = @ \cup {f}])
                /\ UNCHANGED lock
Unlock(p) == /\ lock = p /\ pr[p].open = {} /\ lock' = Free
             /\ Upd(p, [pr[p] EXCEPT !.pc = IF @ = "refused" THEN "refused" ELSE "end"]) /\ UNCHANGED fs
Temporary(S) == {k \in S : k[2]}
\* a process ends by itself; ok: with success
Exit(p, ok) == /\ lock # p /\ pr[p].open = {} /\ pr[p].pc \in {"start", "refused", "end"}
               /\ ok => pr[p].pc = "end" /\ (pr[p].bad \/ Temporary(pr[p].closed) = {})
               /\ ~ok => pr[p].renamed = {} \/ pr[p].bad
               /\ Upd(p, [pr[p] EXCEPT !.pc = IF ok THEN "done" ELSE "failed"]) /\ UNCHANGED <<lock, fs>>
Kill(p) == /\ pr[p].pc \notin {"done", "failed", "killed"}
           /\ Upd(p, [pr[p] EXCEPT !.pc = "killed", !.open = {}, !.closed = {}])
           /\ lock' = (IF lock = p THEN Stale ELSE lock) /\ UNCHANGED fs
\* the user removes the lock of a killed process
Clear == lock = Stale /\ lock' = Free /\ UNCHANGED <<fs, pr>>
=============================================================================
