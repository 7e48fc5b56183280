------------------------------ MODULE Channels ------------------------------
(* Reactions of two hadrons: which classes of reactions there are, which class *)
(* a channel belongs to, and what every channel has to respect.  A species is  *)
(* [q, b, s, c, min, kind, sign]; kind as in the user guide's description of   *)
(* the classes: N, D (Delta), N*, D*, K, Y, pi, d, d', nucleus, meson, baryon. *)
EXTENDS Integers, Sequences, FiniteSets
Elastic == 1
ToOne == 2
ToTwo == 3
ToThree == 4
ToFive == 13
ToFour == 15
RECURSIVE Add(_, _)
Add(s, k) == IF k = 0 THEN 0 ELSE s[k] + Add(s, k - 1)
Sum(s) == Add(s, Len(s))
\* the same charges, and enough energy (up to the tolerance) for the lightest products
Balanced(in, out) == /\ Sum([k \in DOMAIN in |-> in[k].q]) = Sum([k \in DOMAIN out |-> out[k].q])
                     /\ Sum([k \in DOMAIN in |-> in[k].b]) = Sum([k \in DOMAIN out |-> out[k].b])
                     /\ Sum([k \in DOMAIN in |-> in[k].s]) = Sum([k \in DOMAIN out |-> out[k].s])
                     /\ Sum([k \in DOMAIN in |-> in[k].c]) = Sum([k \in DOMAIN out |-> out[k].c])
Possible(out, e, tol) == Sum([k \in DOMAIN out |-> out[k].min]) <= e + tol
\* kinds of two particles, without order
Are(p, x, y) == (p[1].kind \in x /\ p[2].kind \in y) \/ (p[2].kind \in x /\ p[1].kind \in y)
Alike(p) == p[1].sign = p[2].sign
Reso == {"D", "N*", "D*", "baryon"}
One(x) == {x}
\* p -> q, in either direction
Either(p, q, X(_), Y(_)) == (X(p) /\ Y(q)) \/ (X(q) /\ Y(p))
NN(p) == Are(p, {"N"}, {"N"}) /\ Alike(p)
NNbarPair(p) == Are(p, {"N"}, {"N"}) /\ ~Alike(p)
NR(p) == Are(p, {"N"}, Reso)
DR(p) == Are(p, {"D"}, Reso)
PiD(p) == Are(p, {"pi"}, {"d"})
PiD1(p) == Are(p, {"pi"}, {"d'"})
ND(p) == Are(p, {"N"}, {"d"})
ND1(p) == Are(p, {"N"}, {"d'"})
KN(p) == Are(p, {"K"}, {"N"})
KD(p) == Are(p, {"K"}, {"D"})
PiY(p) == Are(p, {"pi"}, {"Y"})
RhoH(p) == Are(p, {"meson"}, {"meson"})
Class(proc, in, out) ==
  IF proc = Elastic THEN "Elastic"
  ELSE IF proc = ToOne THEN "formation"
  ELSE IF proc = ToThree THEN "direct3"
  ELSE IF proc = ToFour THEN "direct4"
  ELSE IF proc = ToFive THEN "NNbar"
  ELSE IF proc # ToTwo \/ Len(out) # 2 THEN "none"
  ELSE IF Either(in, out, NN, NR) THEN "NN_to_NR"
  ELSE IF Either(in, out, NN, DR) THEN "NN_to_DR"
  ELSE IF Either(in, out, NN, PiD) THEN "PiDeuteron_to_NN"
  ELSE IF Either(in, out, PiD, PiD1) THEN "PiDeuteron_to_pidprime"
  ELSE IF Either(in, out, ND, ND1) THEN "NDeuteron_to_Ndprime"
  ELSE IF KN(in) /\ KN(out) THEN "KN_to_KN"
  ELSE IF Either(in, out, KN, KD) THEN "KN_to_KDelta"
  ELSE IF Either(in, out, KN, PiY) THEN "Strangeness_exchange"
  ELSE IF Either(in, out, NNbarPair, RhoH) THEN "NNbar"
  ELSE "none"
\* whether the switches s admit a class
Admits(s, c) == CASE c = "formation" -> s.res
                  [] c = "direct3" -> s.to3
                  [] c = "direct4" -> s.to4
                  [] c = "NNbar" -> s.nnbar # "no annihilation"
                  [] OTHER -> c \in {s.on[k] : k \in DOMAIN s.on}
=============================================================================
