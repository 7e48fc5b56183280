------------------------------- MODULE CliMC -------------------------------
EXTENDS Cli, TLC
CONSTANT MaxLen
VARIABLES xs, s
L(v) == <<<<"General.End_Time", v>>>>
A == {[o |-> "c", ok |-> TRUE, leaves |-> L("1")], [o |-> "c", ok |-> TRUE, leaves |-> L("2") \o <<<<"k", "3">>>>], [o |-> "c", ok |-> FALSE, leaves |-> <<>>],
      [o |-> "c", ok |-> TRUE, leaves |-> <<<<"wrong", "1">>>>],
      [o |-> "e", v |-> "5"], [o |-> "e", v |-> "6"], [o |-> "m", v |-> "Box"], [o |-> "f"], [o |-> "h"], [o |-> "bad"], [o |-> "x"],
      [o |-> "i", given |-> TRUE, ok |-> TRUE, leaves |-> <<<<SEED, "1">>, <<MODUS, "A">>, <<"j", "0">>>>]}
D == [given |-> TRUE, ok |-> TRUE, leaves |-> <<<<SEED, "1">>, <<MODUS, "B">>, <<ENDTIME, "9">>>>]
V(place) == [dflt |-> D, valid |-> {SEED, MODUS, ENDTIME, "j", "k"}, unused |-> {"j"}, unrunnable |-> {<<MODUS, "B">>}, required |-> {ENDTIME}, infook |-> TRUE, place |-> place]
Init == xs = <<>> /\ s = Start
Next == Len(xs) < MaxLen /\ \E x \in A : xs' = Append(xs, x) /\ s' = Read(s, x)
Spec == Init /\ [][Next]_<<xs, s>>
Is(k, o) == xs[k].o = o
Stops == {k \in DOMAIN xs : xs[k].o \in {"h", "v", "bad"}}
\* options after the one that stops do not matter
End == IF Stops = {} THEN Len(xs) ELSE (CHOOSE k \in Stops : \A j \in Stops : k <= j) - 1
Of(o) == {k \in 1..End : Is(k, o)}
LastOf(S) == CHOOSE k \in S : \A j \in S : j <= k
Value(path) == {x[2] : x \in {y \in Effective(s, D) : y[1] = path}}
Single == \A p \in Paths(Effective(s, D)) : Cardinality(Value(p)) = 1
\* the dedicated option wins wherever it stands; the last one of several
EndTime ==
  LET es == Of("e")
      cs == {k \in Of("c") : \E j \in DOMAIN xs[k].leaves : xs[k].leaves[j][1] = ENDTIME}
      file == Of("i")
  IN Value(ENDTIME) = IF es # {} THEN {xs[LastOf(es)].v}
                      ELSE IF cs # {} THEN {xs[LastOf(cs)].leaves[1][2]}
                      ELSE IF file # {} THEN {} ELSE {"9"}
Stopping == Stops # {} => Verdict(s, FALSE, V("")) = (IF Is(CHOOSE k \in Stops : \A j \in Stops : k <= j, "h") THEN "print" ELSE "fail")
Refused == \A f \in BOOLEAN : Verdict(s, f, V("run")) = "run" => \E k \in Of("f") : TRUE
NeverLocked == Verdict(s, FALSE, V("lock")) \in {"fail", "print"}
Same == s = ReadAll(Start, xs, 1)
=============================================================================
