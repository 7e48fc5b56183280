------------------------------- MODULE PdgMC --------------------------------
(* All well-formed codes with a few excitation digits, and all light nuclei:    *)
(* the quantum numbers derived from the digits obey the laws they must obey.   *)
EXTENDS Pdg, TLC
CONSTANTS NX, NA
VARIABLES c
Codes == {x \in [anti : BOOLEAN, nuc : {FALSE}, d : {<<a, b, 0, q1, q2, q3, j>> : a \in {0, 9}, b \in NX, q1 \in 0..6, q2 \in 0..6, q3 \in 0..6, j \in 0..15}] : Formed(x)}
Nuclei == [anti : BOOLEAN, nuc : {TRUE}, d : {<<l, z, a, k>> \in (0..2) \X (0..NA) \X (1..NA) \X {0, 1} : z + l <= a}]
Init == c \in Codes \cup Nuclei
Spec == Init /\ [][FALSE]_c
Abs(x) == IF x < 0 THEN -x ELSE x
NoTop == c.nuc \/ 6 \notin {c.d[4], c.d[5], c.d[6]}
Additive == \A q \in 1..6 : Net(Anti(c), q) = -Net(c, q)
Conjugate == /\ Anti(Anti(c)) = c /\ Charge(Anti(c)) = -Charge(c) /\ B(Anti(c)) = -B(c) /\ Dec(Anti(c)) = -Dec(c) /\ Spin(Anti(c)) = Spin(c)
IntegerCharge == (Hadron(c) \/ c.nuc) => NetSum(c, <<-1, 2, -1, 2, -1, 2>>) % 3 = 0
\* Gell-Mann and Nishijima
Nishijima == (Hadron(c) \/ c.nuc) /\ NoTop => 2 * Charge(c) = Iso3(c) + B(c) + Strange(c) + Charm(c) + Bottom(c)
\* half-integer spin exactly for odd baryon number
Statistics == Hadron(c) /\ ~Kaon0(c) => (Spin(c) % 2 = Abs(B(c)) % 2)
\* only neutral codes are their own antiparticles (hadrons)
SelfConjugate == (Hadron(c) /\ ~HasAnti(c)) => (Charge(c) = 0 /\ B(c) = 0 /\ \A q \in 1..6 : Net(c, q) = 0)
Nucleons == c.nuc => /\ B(c) = Sign(c) * c.d[3] /\ Charge(c) = Sign(c) * c.d[2] /\ Strange(c) = -Sign(c) * c.d[1]
\* the decimal form can be read back
Digits10(x) == LET n == Abs(x) IN <<n \div 1000000000, (n \div 100000000) % 10, (n \div 10000000) % 10, (n \div 1000000) % 10, (n \div 100000) % 10,
                                    (n \div 10000) % 10, (n \div 1000) % 10, (n \div 100) % 10, (n \div 10) % 10, n % 10>>
Back == LET D == Digits10(Dec(c)) IN Code(Sign(c), IF Abs(Dec(c)) >= 1000000000 THEN D ELSE SubSeq(D, 3, 10)) = c
=============================================================================
