--------------------------- MODULE ParticlesTrace ---------------------------
EXTENDS Particles, TraceLib
VARIABLES i, live, used, held
vars == <<i, live, used, held>>
E == Trace[i]
Range(s) == {s[k] : k \in DOMAIN s}
IdsOf(s) == {s[k].id : k \in DOMAIN s}
Init == i = 1 /\ live = {} /\ used = {} /\ held = <<>>
\* particles that came in: all numbers new and different; the list assigns them
In(new, res) == /\ Len(new) = Len(res)
                /\ Cardinality(IdsOf(res)) = Len(res) /\ Fresh(used, IdsOf(res))
                /\ \A k \in DOMAIN new : [type |-> res[k].type, pid |-> res[k].pid, tag |-> res[k].tag] = new[k]
                /\ used' = used \cup IdsOf(res)
Step ==
  \/ E.op = "new" /\ live' = {} /\ used' = {} /\ held' = <<>> /\ E.firstid = 0
  \/ E.op = "insert" /\ In(E.new, E.res) /\ live' = live \cup Range(E.res) /\ held' = held
  \/ E.op = "remove" /\ E.id \in Ids(live) /\ live' = Remove(live, E.id) /\ UNCHANGED <<used, held>>
  \/ E.op = "replace" /\ Range(E.out) \subseteq Ids(live) /\ In(E.new, E.res)
        /\ live' = Replace(live, Range(E.out), Range(E.res)) /\ held' = held
  \/ E.op = "update" /\ E.id \in Ids(live) /\ live' = Update(live, E.id, E.pid, E.tag)
        /\ E.res = Get(live', E.id) /\ UNCHANGED <<used, held>>
  \/ E.op = "hold" /\ held' = [k \in 1..Len(E.copies) |-> E.copies[k]] /\ Range(E.copies) \subseteq live /\ UNCHANGED <<live, used>>
  \* held copies and their state by the list; a copy of a particle of another list is never valid
  \/ E.op = "valid" /\ E.valid = [k \in 1..Len(held) |-> UpToDate(live, held[k])] /\ E.foreign = FALSE
        /\ (\A k \in DOMAIN held : UpToDate(live, held[k]) => E.look[k] = Get(live, held[k].id))
        /\ UNCHANGED <<live, used, held>>
  \/ E.op = "see" /\ Seen(live, E.o) /\ UNCHANGED <<live, used, held>>
        /\ (live # {} => E.o.front = E.o.fwd[1] /\ E.o.back = E.o.bwd[1])
Next == i <= Len(Trace) /\ Step /\ i' = i + 1
Spec == Init /\ [][Next]_vars
=============================================================================
