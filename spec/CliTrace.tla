------------------------------ MODULE CliTrace ------------------------------
(* Invocations of the real program: their options, and what came of them.     *)
EXTENDS TraceLib, Cli
VARIABLES i, s, left, seeds
vars == <<i, s, left, seeds>>
E == Trace[i]
Ran(q) == {q[j] : j \in DOMAIN q}
V == [dflt |-> E.dflt, valid |-> Ran(E.valid), unused |-> Ran(E.unused), unrunnable |-> Ran(E.unrunnable), required |-> Ran(E.required),
      infook |-> E.infook, place |-> E.place]
Begin == E.op = "begin" /\ s' = Start /\ left' = FALSE /\ UNCHANGED seeds
Opt == E.op = "opt" /\ (IF E.x.o = "left" THEN left' = TRUE /\ UNCHANGED s ELSE s' = Read(s, E.x) /\ UNCHANGED left) /\ UNCHANGED seeds
\* the record: what was asked for; a seed is drawn if none is given
Drawn == \E x \in Effective(s, V.dflt) : x[1] = SEED /\ x[2] = "-1"
\* (the levels of the messages are not part of the record)
Recorded == LET r == {x \in Ran(E.recorded) : x[1] \notin Ran(E.logging)}
                e == {x \in Effective(s, V.dflt) : x[1] \notin Ran(E.logging)}
            IN /\ IF Drawn THEN {x \in r : x[1] # SEED} = {x \in e : x[1] # SEED} /\ E.seed >= 0 /\ E.seedkey \notin seeds ELSE r = e
               /\ E.particles = List(s.p, Input(s, V.dflt).particles, E.dp) /\ E.decays = List(s.d, Input(s, V.dflt).decays, E.dd)
Result ==
  /\ E.op = "result"
  /\ LET v == Verdict(s, left, V) IN
     /\ E.rc = (IF v \in {"print", "run"} THEN 0 ELSE 1)
     /\ (v # "run" => E.said /\ ~E.results)
     /\ (v \in {"print", "fail"} => ~E.has /\ E.changed = <<>>)
     /\ (v \in {"late", "run"} /\ E.has => Recorded)
     /\ (v = "late" /\ ~s.force => E.changed = <<>>)
     /\ (v = "run" => E.has /\ E.results /\ (s.force \/ E.changed = <<>>))
     \* nothing outside of the output directory is ever changed
     /\ E.outside = <<>>
     /\ seeds' = IF v \in {"late", "run"} /\ E.has /\ Drawn THEN seeds \cup {E.seedkey} ELSE seeds
  /\ UNCHANGED <<s, left>>
Init == i = 1 /\ s = Start /\ left = FALSE /\ seeds = {}
Next == i <= Len(Trace) /\ i' = i + 1 /\ (Begin \/ Opt \/ Result)
Spec == Init /\ [][Next]_vars
=============================================================================
