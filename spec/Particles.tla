------------------------------ MODULE Particles ------------------------------
(* The particle list of an event, as its users see it.                         *)
(* A particle is [id, type, pid, tag]: number, species, number of the last     *)
(* interaction it took part in, and the rest of its state (a tag).             *)
EXTENDS Integers, Sequences, FiniteSets

Ids(live) == {p.id : p \in live}
Unique(live) == Cardinality(Ids(live)) = Cardinality(live)
Get(live, id) == CHOOSE p \in live : p.id = id

\* a copy is up to date iff its particle is there and has not interacted since
UpToDate(live, copy) == \E p \in live : p.id = copy.id /\ p.pid = copy.pid

\* numbers handed out never repeat within an event
Fresh(used, new) == new \cap used = {}

Insert(live, p) == live \cup {p}
Remove(live, id) == {p \in live : p.id # id}
Replace(live, out, in) == {p \in live : p.id \notin out} \cup in
Update(live, id, pid, tag) == {IF p.id = id THEN [p EXCEPT !.pid = pid, !.tag = tag] ELSE p : p \in live}

\* what must be seen of the list: o.size, o.fwd, o.bwd, o.vec (sequences of
\* particles), o.empty
Seen(live, o) == /\ o.size = Cardinality(live) /\ o.empty = (live = {})
                 /\ Len(o.fwd) = o.size /\ {o.fwd[k] : k \in DOMAIN o.fwd} = live
                 /\ o.vec = o.fwd
                 /\ o.bwd = [k \in 1..Len(o.fwd) |-> o.fwd[Len(o.fwd) + 1 - k]]
==============================================================================
