----------------------------- MODULE ParticlesMC -----------------------------
(* The storage scheme of the particle list (slots, high-water mark, stack of   *)
(* holes), checked to refine the abstract list for every history of operations.*)
EXTENDS Particles, TLC
CONSTANTS Cap, MaxId, MaxPid
VARIABLES slot, size, holes, idmax, live, used, held
vars == <<slot, size, holes, idmax, live, used, held>>
None == [id |-> -1, type |-> "-", pid |-> -1, tag |-> 0]
New(id, t) == [id |-> id, type |-> t, pid |-> 0, tag |-> 0]
Init == /\ slot = [k \in 0..(Cap - 1) |-> None] /\ size = 0 /\ holes = <<>> /\ idmax = -1
        /\ live = {} /\ used = {} /\ held = {}
Used(k) == k < size /\ k \notin {holes[j] : j \in DOMAIN holes}
\* where the next particle goes
Place == IF holes # <<>> THEN holes[Len(holes)] ELSE size
PopHole == IF holes # <<>> THEN SubSeq(holes, 1, Len(holes) - 1) ELSE holes
GrowTo == IF holes # <<>> THEN size ELSE size + 1
Add == \E t \in {"a", "b"} :
          /\ (holes # <<>> \/ size < Cap) /\ idmax < MaxId
          /\ LET p == New(idmax + 1, t) IN
             /\ slot' = [slot EXCEPT ![Place] = p] /\ size' = GrowTo /\ holes' = PopHole
             /\ live' = Insert(live, p) /\ used' = used \cup {p.id} /\ Fresh(used, {p.id})
          /\ idmax' = idmax + 1 /\ held' = held
Hold == \E k \in 0..(Cap - 1) : Used(k) /\ held' = held \cup {[slot |-> k, p |-> slot[k]]} /\ Cardinality(held') <= 2
                                /\ UNCHANGED <<slot, size, holes, idmax, live, used>>
ValidImpl(h) == h.slot < size /\ slot[h.slot].id = h.p.id /\ slot[h.slot].pid = h.p.pid
Rem == \E k \in 0..(Cap - 1) :
          /\ Used(k) /\ live' = Remove(live, slot[k].id)
          /\ IF k = size - 1 THEN size' = size - 1 /\ UNCHANGED <<slot, holes>>
             ELSE size' = size /\ slot' = [slot EXCEPT ![k] = None] /\ holes' = Append(holes, k)
          /\ UNCHANGED <<idmax, used, held>>
\* one particle replaced by one, in place
Repl == \E k \in 0..(Cap - 1), t \in {"a", "b"} :
          /\ Used(k) /\ idmax < MaxId
          /\ LET p == [New(idmax + 1, t) EXCEPT !.pid = 1] IN
             /\ slot' = [slot EXCEPT ![k] = p]
             /\ live' = Replace(live, {slot[k].id}, {p}) /\ used' = used \cup {p.id} /\ Fresh(used, {p.id})
          /\ idmax' = idmax + 1 /\ UNCHANGED <<size, holes, held>>
Upd == \E k \in 0..(Cap - 1) : /\ Used(k) /\ slot[k].pid < MaxPid
          /\ slot' = [slot EXCEPT ![k].pid = @ + 1] /\ live' = Update(live, slot[k].id, slot[k].pid + 1, slot[k].tag)
          /\ UNCHANGED <<size, holes, idmax, used, held>>
Reset == /\ size' = 0 /\ holes' = <<>> /\ idmax' = -1 /\ live' = {} /\ used' = {} /\ held' = {} /\ slot' = slot
Next == Add \/ Hold \/ Rem \/ Repl \/ Upd \/ Reset
Spec == Init /\ [][Next]_vars
Content == {slot[k] : k \in {j \in 0..(Cap - 1) : Used(j)}} = live
NoLoss == Cardinality({j \in 0..(Cap - 1) : Used(j)}) = Cardinality(live) /\ size - Len(holes) = Cardinality(live)
NumbersUnique == Unique(live) /\ Ids(live) \subseteq used
Validity == \A h \in held : ValidImpl(h) <=> UpToDate(live, h.p)
HolesInside == \A j \in DOMAIN holes : holes[j] < size /\ slot[holes[j]].id = -1
==============================================================================
