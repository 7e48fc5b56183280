-------------------------------- MODULE Cli --------------------------------
(* The command line: options are read from left to right; what is asked for   *)
(* is then decided; the configuration is the input file overridden by the      *)
(* inline settings in their order and then by the dedicated options.           *)
EXTENDS Integers, Sequences, FiniteSets
None == "none"
NotGiven == [given |-> FALSE]
\* an option is [o |-> letter, ...]; leaves are sequences of <<path, value>>
Start == [stop |-> "", input |-> NotGiven, extra |-> <<>>, m |-> None, e |-> None, p |-> NotGiven, d |-> NotGiven, o |-> NotGiven,
          force |-> FALSE, info |-> {}]
\* one option; after a stop (-h, -v, an unknown option) nothing more is looked at
Read(s, x) ==
  IF s.stop # "" THEN s ELSE
  CASE x.o \in {"h", "v"} -> [s EXCEPT !.stop = "print"]
    [] x.o = "bad" -> [s EXCEPT !.stop = "fail"]
    [] x.o = "i" -> [s EXCEPT !.input = x]
    [] x.o = "c" -> [s EXCEPT !.extra = Append(@, x)]
    [] x.o = "m" -> [s EXCEPT !.m = x.v]
    [] x.o = "e" -> [s EXCEPT !.e = x.v]
    [] x.o = "p" -> [s EXCEPT !.p = x]
    [] x.o = "d" -> [s EXCEPT !.d = x]
    [] x.o = "o" -> [s EXCEPT !.o = x]
    [] x.o = "f" -> [s EXCEPT !.force = TRUE]
    [] x.o \in {"l", "x", "r", "s", "S"} -> [s EXCEPT !.info = @ \cup {x}]
    [] OTHER -> s
RECURSIVE ReadAll(_, _, _)
ReadAll(s, xs, k) == IF k > Len(xs) THEN s ELSE ReadAll(Read(s, xs[k]), xs, k + 1)
\* a set of (path, value); a later setting replaces an earlier one of the same path
Set(cfg, l) == {x \in cfg : x[1] # l[1]} \cup {<<l[1], l[2]>>}
RECURSIVE SetAll(_, _, _)
SetAll(cfg, ls, k) == IF k > Len(ls) THEN cfg ELSE SetAll(Set(cfg, ls[k]), ls, k + 1)
RECURSIVE Extra(_, _, _)
Extra(cfg, xs, k) == IF k > Len(xs) THEN cfg ELSE Extra(SetAll(cfg, xs[k].leaves, 1), xs, k + 1)
MODUS == "General.Modus"
ENDTIME == "General.End_Time"
SEED == "General.Randomseed"
\* dflt: the input file that is read if none is given
Input(s, dflt) == IF s.input.given THEN s.input ELSE dflt
Merged(s, dflt) == Extra(SetAll({}, Input(s, dflt).leaves, 1), s.extra, 1)
Effective(s, dflt) == LET a == Merged(s, dflt)
                          b == IF s.m = None THEN a ELSE Set(a, <<MODUS, s.m>>)
                      IN IF s.e = None THEN b ELSE Set(b, <<ENDTIME, s.e>>)
Paths(cfg) == {x[1] : x \in cfg}
\* ---- what has to happen ------------------------------------------------------
\* V: .valid keys of the program, .unused those which have no meaning here, .unrunnable settings, .required keys;
\*    .place: what is at the place of the output ("", "file", "lock", "run"), .infook: what is asked for exists
Unreadable(s, left, V) ==
  \/ left \/ ~Input(s, V.dflt).ok
  \/ (\E k \in DOMAIN s.extra : ~s.extra[k].ok)
  \/ (s.p.given /\ ~s.p.readable) \/ (s.d.given /\ ~s.d.readable)
Verdict(s, left, V) ==
  IF s.stop # "" THEN s.stop
  ELSE IF Unreadable(s, left, V) THEN "fail"
  ELSE IF ~(Paths(Merged(s, V.dflt)) \subseteq V.valid) \/ V.place = "file" THEN "fail"
  ELSE IF s.info # {} THEN (IF V.infook THEN "print" ELSE "fail")
  ELSE IF V.place = "lock" \/ (V.place = "run" /\ ~s.force) \/ SEED \notin Paths(Effective(s, V.dflt)) THEN "fail"
  ELSE LET e == Effective(s, V.dflt) IN
       IF \/ (s.p.given /\ ~s.p.ok) \/ (s.d.given /\ ~s.d.ok)
          \/ Paths(e) \cap V.unused # {} \/ e \cap V.unrunnable # {} \/ ~(V.required \subseteq Paths(e))
       THEN "late" ELSE "run"
\* which text is recorded as list of particles (decay modes)
List(given, inline, default) == IF given.given THEN given.id ELSE IF inline # "" THEN inline ELSE default
=============================================================================
