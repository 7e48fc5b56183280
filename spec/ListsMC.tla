-------------------------------- MODULE ListsMC -----------------------------
(* Every list of up to NT particle lines followed by up to ND lines of decay    *)
(* modes from small catalogues.                                                *)
EXTENDS Lists
CONSTANTS NT, ND
VARIABLES nt, nd, phase
vars == <<tys, tok, mother, pend, modes, dok, nt, nd, phase>>
L(f, m, w, p, cs) == [form |-> "ok", first |-> f, rest |-> "", ch |-> "", mass |-> m, width |-> w, par |-> p,
                      codes |-> [k \in DOMAIN cs |-> [sign |-> 1, digits |-> cs[k]]]]
TypeLines == {L("p", 138000, 0, "-", <<<<1, 1, 1>>, <<2, 1, 1>>>>), L("r", 776000, 149000000, "-", <<<<1, 1, 3>>, <<2, 1, 3>>>>),
              L("N", 938000, 0, "+", <<<<2, 1, 1, 2>>, <<2, 2, 1, 2>>>>), L("D", 1232000, 117000000, "+", <<<<1, 1, 1, 4>>, <<2, 1, 1, 4>>, <<2, 2, 1, 4>>, <<2, 2, 2, 4>>>>),
              L("K", 494000, 0, "-", <<<<3, 1, 1>>, <<3, 2, 1>>>>), L("Q", 892000, 50000000, "-", <<<<3, 1, 3>>, <<3, 2, 3>>>>),
              L("o", 783000, 8490000, "-", <<<<2, 2, 3>>>>), L("q", 900000, 0, "+", <<<<3, 1, 1>>>>)}
Heads == {"r", "D", "Q", "Q~", "o", "N"}
ModeLines == {[form |-> "ok", r |-> r, L |-> l, ds |-> d] : r \in {1, 2}, l \in {0, 1},
              d \in {<<"p", "p">>, <<"N", "p">>, <<"K", "p">>, <<"K~", "p">>, <<"p^p", "p^m">>, <<"K", "K~">>, <<"K", "K">>, <<"p", "p", "p">>, <<"r", "p">>}}
Init == ListsInit /\ nt = 0 /\ nd = 0 /\ phase = "types"
ReadType == phase = "types" /\ nt < NT /\ nt' = nt + 1 /\ UNCHANGED <<nd, phase>> /\ \E l \in TypeLines : TypeLine(l)
StartDecays == phase = "types" /\ tok /\ phase' = "decays" /\ UNCHANGED <<lists, nt, nd>>
ReadHead == phase = "decays" /\ dok /\ nd < ND /\ nd' = nd + 1 /\ UNCHANGED <<nt, phase>> /\ \E n \in Heads : HeadLine(n)
ReadMode == phase = "decays" /\ dok /\ nd < ND /\ nd' = nd + 1 /\ UNCHANGED <<nt, phase>> /\ \E l \in ModeLines : ModeLine(l)
Next == ReadType \/ StartDecays \/ ReadHead \/ ReadMode
Spec == Init /\ [][Next]_vars
\* what loading the list now would give
Result == Closed
Conjugate(x) == IF HasAnti(tys[x].c) THEN AntiOf(tys[x]).code ELSE x
TypesClosed == \A t \in T : HasAnti(t.c) =>
                 /\ AntiOf(t) \in T /\ AntiOf(AntiOf(t)) = t /\ AntiOf(t).mass = t.mass /\ AntiOf(t).width = t.width
                 /\ (B(t.c) = 0) = (AntiOf(t).par = t.par) /\ Iso(AntiOf(t)) = Iso(t) /\ Name(AntiOf(t)) # Name(t)
NamesUnique == tok => \A s, t \in T : Name(s) = Name(t) => s = t
MultipletsWhole == \A t \in T : Hadron(t.c) => Iso3(t.c) \in -Iso(t)..Iso(t) /\ (Iso3(t.c) - Iso(t)) % 2 = 0
Conserving == (phase = "decays" /\ dok) =>
  \A x \in DOMAIN Result : \A m \in Result[x] :
    /\ ChargeIn([k \in DOMAIN m.ds |-> tys[m.ds[k]]]) = Charge(tys[x].c) /\ m.w >= 0 /\ m.tot > 0
SumsToOne == (phase = "decays" /\ dok) => \A x \in DOMAIN Result : Sum(Result[x]) = (IF Result[x] = {} THEN 0 ELSE (CHOOSE m \in Result[x] : TRUE).tot)
ConjugateModes == (phase = "decays" /\ dok) =>
  \A x \in DOMAIN Result : (HasAnti(tys[x].c) /\ AntiMult(tys[x].mult) # "") =>
    Conjugate(x) \in DOMAIN Result /\ {[m EXCEPT !.ds = Sorted([k \in DOMAIN m.ds |-> Conjugate(m.ds[k])])] : m \in Result[x]} = Result[Conjugate(x)]
\* the weights are exact and the ways of one member add up to the same for all members
CGExact == \A a \in 0..4, b \in 0..3, c \in 0..4 : \A ma \in -a..a, mb \in -b..b :
             (Valid(a, b, c, ma, mb, ma + mb) /\ a + b + c <= 10) => LET x == CGRaw(a, b, c, ma, mb, ma + mb) IN x[1] % x[2] = 0
RECURSIVE SumS(_)
SumS(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[1] + SumS(S \ {x})
CGUnit == \A a \in 0..3, b \in 0..3, c \in 0..3 : \A mc \in -c..c :
            (Triangle(a, b, c) /\ (c - mc) % 2 = 0) => SumS({<<CG60(a, b, c, ma, mc - ma, mc), ma>> : ma \in -a..a}) = 60
ASSUME CGExact /\ CGUnit
=============================================================================
