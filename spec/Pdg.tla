-------------------------------- MODULE Pdg ---------------------------------
(* Particle codes: what a code written with a sign and digits stands for.      *)
(* A code is [anti, nuc, d] with d = <<n, nR, nL, q1, q2, q3, J>> for ordinary *)
(* codes and <<Lambdas, Z, A, I>> for nuclei.                                  *)
EXTENDS Integers, Sequences, FiniteSets
Digit(D, k) == IF k <= Len(D) THEN D[Len(D) + 1 - k] ELSE 0          \* k-th from the right
Hex(D) == \A k \in DOMAIN D : D[k] \in 0..15
Ordinary(D) == [anti |-> FALSE, nuc |-> FALSE,
                d |-> <<Digit(D, 7), Digit(D, 6), Digit(D, 5), Digit(D, 4), Digit(D, 3), Digit(D, 2), Digit(D, 1) + Digit(D, 8)>>]
NucleusOf(D) == [anti |-> FALSE, nuc |-> TRUE, d |-> <<D[3], 100 * D[4] + 10 * D[5] + D[6], 100 * D[7] + 10 * D[8] + D[9], D[10]>>]
Q(c) == <<c.d[4], c.d[5], c.d[6]>>
Spin2(c) == c.d[7]                                                   \* 2J+1 of an ordinary code
Hadron(c) == ~c.nuc /\ c.d[5] # 0 /\ c.d[6] # 0
Baryon(c) == Hadron(c) /\ c.d[4] # 0
Meson(c) == Hadron(c) /\ c.d[4] = 0
Lepton(c) == ~c.nuc /\ c.d[4] = 0 /\ c.d[5] = 0 /\ c.d[6] = 1
HasAnti(c) == c.nuc \/ Baryon(c) \/ (Meson(c) /\ c.d[5] # c.d[6]) \/ (~Hadron(c) /\ c.d[6] = 1)
Kaon0(c) == c.d = <<0, 0, 0, 0, 1, 3, 0>> \/ c.d = <<0, 0, 0, 0, 3, 1, 0>>     \* K0_L and K0_S have no spin digit
Zero(c) == \A k \in DOMAIN c.d : c.d[k] = 0
\* well formed
Formed(c) == /\ c.d[1] <= 9 /\ c.d[2] <= 9 /\ c.d[3] <= 9 /\ c.d[4] <= 6 /\ c.d[5] <= 6 /\ c.d[6] <= 6 /\ c.d[7] <= 15
             /\ IF Baryon(c) THEN c.d[7] % 2 = 0 /\ c.d[7] # 0
                ELSE IF Meson(c) THEN c.d[7] % 2 = 1 \/ (Kaon0(c) /\ ~c.anti)
                ELSE c.d[7] # 0 \/ Zero(c)
             /\ (c.anti => HasAnti(c))
Accepted2(sign, D) ==
  /\ Hex(D) /\ Len(D) >= 1
  /\ IF Len(D) = 10 THEN D[1] = 1 /\ D[2] = 0 /\ \A k \in DOMAIN D : D[k] <= 9
     ELSE Len(D) <= 8 /\ Formed([Ordinary(D) EXCEPT !.anti = (sign = -1)])
Code(sign, D) == [(IF Len(D) = 10 THEN NucleusOf(D) ELSE Ordinary(D)) EXCEPT !.anti = (sign = -1)]
Sign(c) == IF c.anti THEN -1 ELSE 1
Anti(c) == [c EXCEPT !.anti = ~@]
\* decimal number; 2J+1 beyond nine spills into the eighth digit
Dec(c) == Sign(c) * (IF c.nuc THEN c.d[4] + 10 * c.d[3] + 10000 * c.d[2] + 10000000 * c.d[1] + 1000000000
                     ELSE LET j == c.d[7] IN (IF j > 9 THEN 9 ELSE j) + 10 * c.d[6] + 100 * c.d[5] + 1000 * c.d[4] + 10000 * c.d[3]
                          + 100000 * c.d[2] + 1000000 * c.d[1] + (IF j > 9 THEN (j - 9) * 10000000 ELSE 0))
\* quarks: 1..6 = d u s c b t; a meson is the heavier quark with the lighter one conjugated,
\* where the heavier one is itself an antiquark if it is of the down kind
Count(s, q) == Cardinality({k \in DOMAIN s : s[k] = q})
Net(c, q) ==
  Sign(c) * (IF c.nuc THEN LET N == c.d[3] - c.d[2] - c.d[1] IN
                     CASE q = 1 -> 2 * N + c.d[2] + c.d[1] [] q = 2 -> N + 2 * c.d[2] + c.d[1] [] q = 3 -> c.d[1] [] OTHER -> 0
             ELSE IF Baryon(c) THEN Count(Q(c), q)
             ELSE IF Meson(c) /\ c.d[5] # c.d[6] /\ q \in {c.d[5], c.d[6]} THEN
                    LET heavy == IF c.d[5] > c.d[6] THEN c.d[5] ELSE c.d[6]
                        up == IF heavy % 2 = 0 THEN 1 ELSE -1
                    IN IF q = heavy THEN up ELSE -up
             ELSE 0)
NetSum(c, w) == w[1] * Net(c, 1) + w[2] * Net(c, 2) + w[3] * Net(c, 3) + w[4] * Net(c, 4) + w[5] * Net(c, 5) + w[6] * Net(c, 6)
Charge(c) == IF Hadron(c) \/ c.nuc THEN NetSum(c, <<-1, 2, -1, 2, -1, 2>>) \div 3
             ELSE IF c.d[6] = 1 THEN -Sign(c) * (c.d[7] % 2)
             ELSE IF <<c.d[4], c.d[5], c.d[6], c.d[7]>> = <<0, 0, 2, 4>> THEN Sign(c) ELSE 0
B(c) == IF c.nuc \/ Baryon(c) THEN NetSum(c, <<1, 1, 1, 1, 1, 1>>) \div 3 ELSE 0
Strange(c) == -Net(c, 3)
Charm(c) == Net(c, 4)
Bottom(c) == -Net(c, 5)
Iso3(c) == Net(c, 2) - Net(c, 1)
Spin(c) == IF c.nuc THEN CASE c.d[3] = 2 -> 2 [] c.d[3] = 3 -> 1 [] c.d[3] = 4 -> 0 [] OTHER -> -1
           ELSE IF Hadron(c) THEN IF c.d[7] = 0 THEN 0 ELSE c.d[7] - 1 ELSE c.d[6]
Deg(c) == IF Spin(c) = -1 THEN -1 ELSE IF Hadron(c) /\ c.d[7] > 0 THEN c.d[7] ELSE Spin(c) + 1
\* families
U(c) == Dec([c EXCEPT !.anti = FALSE])
Hyperon(c) == Hadron(c) /\ c.d[4] = 3
Frac(c, q) == IF Baryon(c) THEN 2 * (IF Net(c, q) < 0 THEN -Net(c, q) ELSE Net(c, q))
              ELSE IF Meson(c) THEN IF c.d[5] = q /\ c.d[6] = q THEN 6 ELSE 3 * (IF Net(c, q) < 0 THEN -Net(c, q) ELSE Net(c, q))
              ELSE 0
Is(c) == {x \in {"nucleus", "hadron", "lepton", "neutrino", "charmonia", "baryon", "meson", "nucleon", "proton", "neutron", "Nstar1535", "Delta",
                 "hyperon", "Omega", "Xi", "Lambda", "Sigma", "Sigmastar", "kaon", "pion", "omega", "rho", "deuteron", "triton", "heavy_flavor"} :
  CASE x = "nucleus" -> c.nuc [] x = "hadron" -> Hadron(c) [] x = "lepton" -> Lepton(c) [] x = "neutrino" -> Lepton(c) /\ c.d[7] % 2 = 0
    [] x = "charmonia" -> Meson(c) /\ c.d[5] = 4 /\ c.d[6] = 4 [] x = "baryon" -> Baryon(c) [] x = "meson" -> Meson(c)
    [] x = "nucleon" -> U(c) \in {2212, 2112} [] x = "proton" -> U(c) = 2212 [] x = "neutron" -> U(c) = 2112
    [] x = "Nstar1535" -> U(c) \in {22212, 22112} [] x = "Delta" -> U(c) \in {2224, 2214, 2114, 1114}
    [] x = "hyperon" -> Hyperon(c) [] x = "Omega" -> Hyperon(c) /\ c.d[5] = 3 /\ c.d[6] = 3
    [] x = "Xi" -> Hyperon(c) /\ c.d[5] = 3 /\ c.d[6] # 3 [] x = "Lambda" -> Hyperon(c) /\ c.d[5] = 1 /\ c.d[6] = 2
    [] x = "Sigma" -> Hyperon(c) /\ c.d[5] # 3 /\ ~(c.d[5] = 1 /\ c.d[6] = 2)
    [] x = "Sigmastar" -> U(c) \in {3224, 3214, 3114} [] x = "kaon" -> U(c) \in {321, 311}
    [] x = "pion" -> Dec(c) \in {111, 211, -211} [] x = "omega" -> Dec(c) = 223 [] x = "rho" -> Dec(c) \in {113, 213, -213}
    [] x = "deuteron" -> c.nuc /\ c.d = <<0, 1, 2, 0>> [] x = "triton" -> c.nuc /\ c.d = <<0, 1, 3, 0>>
    [] x = "heavy_flavor" -> Frac(c, 4) # 0 \/ Frac(c, 5) # 0}
Content(c) == IF ~Hadron(c) THEN <<0, 0, 0>>
              ELSE IF Baryon(c) THEN <<Sign(c) * c.d[4], Sign(c) * c.d[5], Sign(c) * c.d[6]>>
              ELSE IF c.d[5] = c.d[6] THEN <<0, c.d[5], -c.d[6]>>
              ELSE LET s(q) == Net(c, q) * q IN <<0, s(c.d[5]), s(c.d[6])>>
Enough(c) == IF Meson(c) THEN {-1, 1} ELSE IF c.anti THEN {-1, -2} ELSE {1, 2}
Nuc(c) == IF ~c.nuc THEN <<0, 0, 0, 0, 0, 0, 0>>
          ELSE LET A == c.d[3]  Z == c.d[2]  L == c.d[1] IN
               IF c.anti THEN <<A, 0, 0, 0, Z, A - Z - L, L>> ELSE <<A, Z, A - Z - L, L, 0, 0, 0>>
Ground(c) == IF c.nuc THEN [c EXCEPT !.d[4] = 0] ELSE [c EXCEPT !.d[1] = 0, !.d[2] = 0, !.d[3] = 0]
Quarks(c) == IF Hadron(c) THEN 256 * c.d[4] + 16 * c.d[5] + c.d[6] ELSE 0
=============================================================================
