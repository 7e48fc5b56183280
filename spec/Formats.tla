------------------------------ MODULE Formats ------------------------------
(* What an output file has to contain, as a function of what happened in the   *)
(* run (calls: start, mid, int, end of each event and ensemble) and of the     *)
(* options of the output.  Expected(c, o) is the list of blocks that a call    *)
(* adds to the file.                                                           *)
EXTENDS Integers, Sequences

IsIC(o) == o.content = "Initial_Conditions"
Bin(o) == o.format \in {"Binary", "Oscar2013_bin"}

Expected(op, empty, spectator, o) ==
  CASE o.format = "For_vHLLE" ->
         CASE op = "start" -> <<"start">> [] op = "end" -> <<"stop">>
           [] op = "int" -> IF spectator THEN <<>> ELSE <<"row">> [] OTHER -> <<>>
    [] IsIC(o) /\ Bin(o) ->
         CASE op = "int" -> <<"icp">> [] op = "end" -> <<"close">> [] OTHER -> <<>>
    [] IsIC(o) ->
         CASE op = "start" -> <<"start">> [] op = "int" -> <<"row">>
           [] op = "end" -> IF o.format = "Oscar1999" THEN <<"close">> ELSE <<"stop">> [] OTHER -> <<>>
    [] o.content = "Particles" ->
         CASE op = "start" -> IF o.only = "No" THEN <<"in">> ELSE <<>>
           [] op = "mid" -> IF o.only = "No" THEN <<"out">> ELSE <<>>
           [] op = "end" -> (IF o.only = "IfNotEmpty" /\ empty THEN <<>> ELSE <<"out">>) \o <<"close">>
           [] OTHER -> <<>>
    [] o.content = "Collisions" ->
         CASE op = "start" -> IF o.pse THEN <<"in">> ELSE <<>>
           [] op = "int" -> <<"int">>
           [] op = "end" -> (IF o.pse THEN <<"out">> ELSE <<>>) \o <<"close">>
           [] OTHER -> <<>>
    [] OTHER ->                                   \* dileptons, photons
         CASE op = "int" -> <<"int">> [] op = "end" -> <<"close">> [] OTHER -> <<>>
=============================================================================
