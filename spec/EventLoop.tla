------------------------------ MODULE EventLoop ------------------------------
(* One ensemble of an event: candidate interactions are found ahead of time    *)
(* from copies of particles, the earliest is taken, dropped when one of its    *)
(* copies is outdated, otherwise carried out; then candidates for the products *)
(* are looked for.  All choices of candidates and their times are explored.    *)
EXTENDS Particles, TLC
CONSTANTS TEnd, N0, MaxInt, MaxPool
VARIABLES now, live, used, pool, ledger, phase
vars == <<now, live, used, pool, ledger, phase>>
Copy(p) == [id |-> p.id, pid |-> p.pid]
P(id, pid, q) == [id |-> id, type |-> "h", pid |-> pid, tag |-> q]      \* tag: the charge
Init == /\ now = 0 /\ live = {P(k, 0, k % 2) : k \in 0..(N0 - 1)} /\ used = 0..(N0 - 1)
        /\ pool = {} /\ ledger = <<>> /\ phase = "search"
\* pairs that have just interacted with each other are not candidates again
Eligible(S) == /\ Cardinality(S) = 2 => \A a, b \in S : a # b => ~(a.pid = b.pid /\ a.pid # 0)
               /\ Cardinality(S) \in {1, 2}
New == IF ledger = <<>> THEN live ELSE {p \in live : p.id \in ledger[Len(ledger)].outids}
Search == /\ phase = "search"
          /\ \E A \in {{}} \cup {{a, b} : a, b \in {[t |-> t, c |-> {Copy(p) : p \in S}] : t \in now..TEnd,
                                        S \in {s \in SUBSET live : Eligible(s) /\ s \cap New # {}}}} :
               /\ Cardinality(pool \cup A) <= MaxPool /\ pool' = pool \cup A
          /\ phase' = "pop" /\ UNCHANGED <<now, live, used, ledger>>
Current(a) == \A c \in a.c : UpToDate(live, c)
Earliest(a) == \A b \in pool : a.t <= b.t
Drop == /\ phase = "pop" /\ \E a \in pool : Earliest(a) /\ ~Current(a) /\ pool' = pool \ {a}
        /\ UNCHANGED <<now, live, used, ledger, phase>>
Charge(S) == LET RECURSIVE F(_)
                 F(s) == IF s = {} THEN 0 ELSE LET x == CHOOSE y \in s : TRUE IN x.tag + F(s \ {x})
             IN F(S)
Max(S) == CHOOSE m \in S : \A s \in S : s <= m
Do == /\ phase = "pop" /\ Len(ledger) < MaxInt
      /\ \E a \in pool : /\ Earliest(a) /\ Current(a) /\ pool' = pool \ {a} /\ now' = a.t
           /\ LET n == Len(ledger) + 1
                  in == {p \in live : \E c \in a.c : c.id = p.id}
                  nx == Max(used) + 1
                  els == {P(p.id, n, p.tag) : p \in in}
                  mrg == {P(nx, n, Charge(in))}
                  dec == {P(nx, n, 0), P(nx + 1, n, Charge(in))}
              IN \E out \in (IF Cardinality(in) = 2 THEN {els, mrg, dec} ELSE {dec}) :
                   /\ live' = (live \ in) \cup out /\ used' = used \cup Ids(out)
                   /\ ledger' = Append(ledger, [t |-> a.t, in |-> {Copy(p) : p \in in}, outids |-> Ids(out), ids |-> Ids(in), qi |-> Charge(in), qo |-> Charge(out)])
      /\ phase' = "search"
Done == phase = "pop" /\ pool = {} /\ UNCHANGED vars
Next == Search \/ Drop \/ Do
Spec == Init /\ [][Next]_vars
\* ---- guarantees
Chronological == \A k \in 1..(Len(ledger) - 1) : ledger[k].t <= ledger[k + 1].t
NeverInPast == \A a \in pool : a.t >= now \/ ~Current(a)
\* no state of a particle is consumed twice
OnceConsumed == \A j, k \in DOMAIN ledger : j < k => ledger[j].in \cap ledger[k].in = {}
Conserved == Charge(live) = (N0 \div 2) /\ \A k \in DOMAIN ledger : ledger[k].qi = ledger[k].qo
NoRepeat == \A k \in 1..(Len(ledger) - 1) :
   Cardinality(ledger[k + 1].in) = 2 => ~(\A c \in ledger[k + 1].in : c.pid = k)
Numbers == Unique(live) /\ Ids(live) \subseteq used
\* the content is what the records so far produce
FromLedger == \A p \in live : p.pid = 0 \/ (p.pid \in DOMAIN ledger /\ p.id \in ledger[p.pid].outids)
=============================================================================
