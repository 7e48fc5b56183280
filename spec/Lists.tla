-------------------------------- MODULE Lists -------------------------------
(* Particle lists and decay mode lists, read line by line.                     *)
(*   tys: code -> type;  tok: the particle list is acceptable so far;          *)
(*   mother: multiplet of the current section; pend: modes read in it;         *)
(*   modes: code -> modes of the finished sections; dok: acceptable so far.    *)
(* A mode is [ds |-> sorted codes, L |-> .., w |-> numerator, tot |-> total].  *)
EXTENDS Pdg, TLC
VARIABLES tys, tok, mother, pend, modes, dok
lists == <<tys, tok, mother, pend, modes, dok>>
BarSign == "~"
ChargeSign(q) == CASE q = 2 -> "^p^p" [] q = 1 -> "^p" [] q = 0 -> "^0" [] q = -1 -> "^m" [] q = -2 -> "^m^m"
Flip(s) == CASE s = "^p^p" -> "^m^m" [] s = "^p" -> "^m" [] s = "^m^m" -> "^p^p" [] s = "^m" -> "^p" [] OTHER -> s
\* masses in keV that must agree with the ones built in
BuiltIn(c) == CASE U(c) \in {2112, 2212} -> 938000 [] U(c) \in {111, 211} -> 138000 [] U(c) \in {311, 321} -> 494000
                [] Dec(c) = 223 -> 783000 [] U(c) \in {1114, 2114, 2214, 2224} -> 1232000
                [] c.nuc /\ c.d = <<0, 1, 2, 0>> -> 1875600 [] OTHER -> 0
CodesOf(l) == [k \in DOMAIN l.codes |-> Code(l.codes[k].sign, l.codes[k].digits)]
LineOk(l) ==
  /\ l.form = "ok" /\ l.par \in {"+", "-"} /\ Len(l.codes) > 0
  /\ \A k \in DOMAIN l.codes : Accepted2(l.codes[k].sign, l.codes[k].digits)
  /\ BuiltIn(CodesOf(l)[1]) \in {0, l.mass}
  /\ (Len(l.codes) > 1 => \A k \in DOMAIN l.codes : Charge(CodesOf(l)[k]) \in -2..2)
Opposite(p) == IF p = "+" THEN "-" ELSE "+"
Barred(c) == B(c) # 0 \/ Strange(c) # 0 \/ Charm(c) # 0 \/ Bottom(c) # 0 \/ (Lepton(c) /\ c.d[7] % 2 = 0)
Fermion(c) == Spin(c) % 2 = 1
TypeOf(l, c, ch, anti) ==
  [code |-> Dec(c), c |-> c, mult |-> l.first \o (IF anti /\ Barred(c) THEN BarSign ELSE "") \o l.rest, ch |-> ch,
   mass |-> l.mass, width |-> l.width, par |-> IF anti /\ Fermion(c) THEN Opposite(l.par) ELSE l.par]
NewTypes(l) == LET cs == CodesOf(l)
                   ch(k) == IF Len(cs) > 1 THEN ChargeSign(Charge(cs[k])) ELSE l.ch
               IN [k \in DOMAIN cs |-> TypeOf(l, cs[k], ch(k), FALSE)]
                  \o SelectSeq([k \in DOMAIN cs |-> TypeOf(l, Anti(cs[k]), Flip(ch(k)), TRUE)], LAMBDA t : HasAnti(t.c))
TypeLine(l) ==
  /\ IF tok /\ LineOk(l) THEN
       LET new == NewTypes(l) IN
       IF Cardinality({new[k].code : k \in DOMAIN new}) = Len(new) /\ \A k \in DOMAIN new : new[k].code \notin DOMAIN tys
       THEN tys' = [x \in {new[k].code : k \in DOMAIN new} |-> CHOOSE t \in {new[k] : k \in DOMAIN new} : t.code = x] @@ tys /\ tok' = TRUE
       ELSE tok' = FALSE /\ tys' = tys
     ELSE tok' = FALSE /\ tys' = tys
  /\ UNCHANGED <<mother, pend, modes, dok>>
\* ---- derived from the types
T == {tys[x] : x \in DOMAIN tys}
Name(t) == t.mult \o t.ch
States(m) == {t \in T : t.mult = m}
Mults == {t.mult : t \in T}
Stable(t) == t.width < 10000                     \* 10 keV, in eV
Iso(t) == IF Hadron(t.c) THEN Cardinality(States(t.mult)) - 1 ELSE 0
AntiOf(t) == tys[Dec(Anti(t.c))]
AntiMult(m) == LET s == CHOOSE t \in States(m) : TRUE IN
               IF \E t \in States(m) : ~HasAnti(t.c) THEN "" ELSE IF AntiOf(s).mult = m THEN "" ELSE AntiOf(s).mult
\* ---- isospin weights: squared Clebsch-Gordan coefficients in sixtieths; all arguments doubled
RECURSIVE F(_)
F(n) == IF n <= 1 THEN 1 ELSE n * F(n - 1)
RECURSIVE Racah(_, _, _)
Racah(k, a, D) ==                                \* sum over k of (-1)^k D / product of factorials
  IF k > a[1] THEN 0
  ELSE Racah(k + 1, a, D) +
       IF a[2] - k < 0 \/ a[3] - k < 0 \/ a[4] + k < 0 \/ a[5] + k < 0 THEN 0
       ELSE (IF k % 2 = 0 THEN 1 ELSE -1) * (D \div (F(k) * F(a[1] - k) * F(a[2] - k) * F(a[3] - k) * F(a[4] + k) * F(a[5] + k)))
Abs(x) == IF x < 0 THEN -x ELSE x
Triangle(a, b, c) == (a + b + c) % 2 = 0 /\ Abs(a - b) <= c /\ c <= a + b
CGRaw(a, b, c, ma, mb, mc) ==
       LET D == F((a + b + c) \div 2)
           s == Racah(0, <<(a + b - c) \div 2, (a - ma) \div 2, (b + mb) \div 2, (c - b + ma) \div 2, (c - a - mb) \div 2>>, D)
           num == (c + 1) * F((c + a - b) \div 2) * F((c - a + b) \div 2) * F((a + b - c) \div 2)
                  * F((c + mc) \div 2) * F((c - mc) \div 2) * F((a - ma) \div 2) * F((a + ma) \div 2) * F((b - mb) \div 2) * F((b + mb) \div 2)
       IN <<60 * num * s * s, F((a + b + c) \div 2 + 1) * D * D>>
Valid(a, b, c, ma, mb, mc) == Triangle(a, b, c) /\ ma + mb = mc /\ Abs(ma) <= a /\ Abs(mb) <= b /\ Abs(mc) <= c
                              /\ (a - ma) % 2 = 0 /\ (b - mb) % 2 = 0 /\ (c - mc) % 2 = 0
CG60(a, b, c, ma, mb, mc) == IF ~Valid(a, b, c, ma, mb, mc) THEN 0
                             ELSE LET x == CGRaw(a, b, c, ma, mb, mc) IN x[1] \div x[2]
I3(t) == Iso3(t.c)
\* in units of 1/3600
Weight2(m, x, y) == 60 * CG60(Iso(x), Iso(y), Iso(m), I3(x), I3(y), I3(m))
\* a three-body state needs a unique isospin of the first two
Coupled(m, x, y, z) == {i \in Abs(Iso(x) - Iso(y))..(Iso(x) + Iso(y)) : (i - Iso(x) - Iso(y)) % 2 = 0 /\ Triangle(i, Iso(z), Iso(m))}
Weight3(m, x, y, z) ==
  LET i == CHOOSE j \in Coupled(m, x, y, z) : TRUE
      iz == I3(x) + I3(y)
  IN IF Abs(iz) > i THEN 0 ELSE CG60(i, Iso(z), Iso(m), iz, I3(z), I3(m)) * CG60(Iso(x), Iso(y), i, I3(x), I3(y), iz)
\* ---- decay modes
RECURSIVE Sorted(_)
Sorted(s) == IF Len(s) <= 1 THEN s
             ELSE LET m == CHOOSE k \in DOMAIN s : \A j \in DOMAIN s : s[k] <= s[j]
                  IN <<s[m]>> \o Sorted(SubSeq(s, 1, m - 1) \o SubSeq(s, m + 1, Len(s)))
Add(ms, ds, L, w) == LET d == Sorted(ds) IN
  IF \E x \in ms : x.ds = d /\ x.L = L
  THEN {IF x.ds = d /\ x.L = L THEN [x EXCEPT !.w = @ + w] ELSE x : x \in ms}
  ELSE ms \cup {[ds |-> d, L |-> L, w |-> w]}
RECURSIVE AddAll(_, _, _)
AddAll(ms, S, L) == IF S = {} THEN ms ELSE LET x == CHOOSE y \in S : TRUE IN AddAll(Add(ms, x.ds, L, x.w), S \ {x}, L)
RECURSIVE Sum(_)
Sum(ms) == IF ms = {} THEN 0 ELSE LET x == CHOOSE y \in ms : TRUE IN x.w + Sum(ms \ {x})
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE SeqSum(_)
SeqSum(s) == IF s = <<>> THEN 0 ELSE Head(s) + SeqSum(Tail(s))
Range(s) == {s[k] : k \in DOMAIN s}
MinL(js) == LET x == 2 * Max(Range(js)) - SeqSum(js) IN IF x > 0 THEN x \div 2 ELSE 0
MaxL(js) == SeqSum(js) \div 2
Minus(ps) == Cardinality({k \in DOMAIN ps : ps[k] = "-"})
SpinParityOk(l, sm, ss, pm, ps) ==
  /\ (sm + SeqSum(ss)) % 2 = 0 /\ l.L >= MinL(<<sm>> \o ss) /\ l.L <= MaxL(<<sm>> \o ss)
  /\ (Len(ss) = 2 => (Minus(ps) + l.L) % 2 = (IF pm = "-" THEN 1 ELSE 0))
IsMult(n) == n \in Mults
IsState(n) == \E t \in T : Name(t) = n
One(m) == CHOOSE t \in States(m) : TRUE
HadronMult(n) == IsMult(n) /\ Hadron(One(n).c)
StateOf(n) == CHOOSE t \in T : Name(t) = n
\* multiplets on the right-hand side: every combination of members with its isospin weight
Combos(ds) == IF Len(ds) = 2 THEN {<<x, y>> : x \in States(ds[1]), y \in States(ds[2])}
              ELSE {<<x, y, z>> : x \in States(ds[1]), y \in States(ds[2]), z \in States(ds[3])}
WeightOf(m, c) == IF Len(c) = 2 THEN Weight2(m, c[1], c[2]) ELSE Weight3(m, c[1], c[2], c[3])
CodesIn(c) == [k \in DOMAIN c |-> c[k].code]
ChargeIn(c) == SeqSum([k \in DOMAIN c |-> Charge(c[k].c)])
Unique(l) == Len(l.ds) = 2 \/ LET x == [k \in 1..3 |-> One(l.ds[k])] IN Cardinality(Coupled(One(mother), x[1], x[2], x[3])) = 1
Ways(l) == {c \in Combos(l.ds) : \E m \in States(mother) : WeightOf(m, c) > 0}
MultOk(l) == /\ Len(l.ds) \in {2, 3} /\ Unique(l)
             /\ LET W == {<<m, c>> \in States(mother) \X Combos(l.ds) : WeightOf(m, c) > 0}
                IN W # {} /\ \A x \in W : Charge(x[1].c) = ChargeIn(x[2])
             /\ SpinParityOk(l, Spin(One(mother).c), [k \in DOMAIN l.ds |-> Spin(One(l.ds[k]).c)], One(mother).par, [k \in DOMAIN l.ds |-> One(l.ds[k]).par])
MultPend(l) == [x \in DOMAIN pend |-> AddAll(pend[x], {[ds |-> CodesIn(c), c |-> c, w |-> l.r * WeightOf(tys[x], c)] : c \in {d \in Combos(l.ds) : WeightOf(tys[x], d) > 0}}, l.L)]
\* specific members: the members of the mother with the same charge decay that way
Specific(l) == [k \in DOMAIN l.ds |-> StateOf(l.ds[k])]
StateOk(l) == /\ Len(l.ds) \in {2, 3} /\ \A k \in DOMAIN l.ds : IsState(l.ds[k])
              /\ \E m \in States(mother) : Charge(m.c) = ChargeIn(Specific(l))
              /\ SpinParityOk(l, Spin(One(mother).c), [k \in DOMAIN l.ds |-> Spin(Specific(l)[k].c)], One(mother).par, [k \in DOMAIN l.ds |-> Specific(l)[k].par])
StatePend(l) == [x \in DOMAIN pend |-> IF Charge(tys[x].c) = ChargeIn(Specific(l)) THEN Add(pend[x], CodesIn(Specific(l)), l.L, l.r * 3600) ELSE pend[x]]
\* end of a section: every member has modes that add up, and the antimultiplet the conjugate ones
Closed == IF mother = "" THEN modes
          ELSE LET own == [x \in {t.code : t \in States(mother)} |-> {[ds |-> m.ds, L |-> m.L, w |-> m.w, tot |-> Sum(pend[x])] : m \in pend[x]}]
                   conj(m) == [m EXCEPT !.ds = Sorted([k \in DOMAIN m.ds |-> IF HasAnti(tys[m.ds[k]].c) THEN AntiOf(tys[m.ds[k]]).code ELSE m.ds[k]])]
                   am == AntiMult(mother)
                   anti == IF am = "" THEN [x \in {} |-> {}]
                           ELSE [x \in {t.code : t \in States(am)} |-> {conj(m) : m \in own[AntiOf(tys[x]).code]}]
               IN own @@ anti @@ modes
SectionOk == mother = "" \/ \A x \in DOMAIN pend : (pend[x] = {} => Stable(tys[x])) /\ (pend[x] # {} => Sum(pend[x]) > 0)
Known(x) == IF x \in DOMAIN modes THEN modes[x] ELSE {}
HeadLine(n) ==
  LET ok == dok /\ SectionOk /\ IsMult(n)
      ms == Closed
  IN /\ IF ok /\ (\A t \in States(n) : t.code \notin DOMAIN ms \/ ms[t.code] = {})
        THEN dok' = TRUE /\ modes' = ms /\ mother' = n /\ pend' = [x \in {t.code : t \in States(n)} |-> {}]
        ELSE dok' = FALSE /\ UNCHANGED <<modes, mother, pend>>
     /\ UNCHANGED <<tys, tok>>
ModeLine(l) ==
  /\ IF ~dok \/ mother = "" \/ l.form # "ok" \/ l.L < 0 THEN dok' = FALSE /\ pend' = pend
     ELSE IF \A k \in DOMAIN l.ds : HadronMult(l.ds[k])
          THEN IF MultOk(l) THEN dok' = TRUE /\ pend' = MultPend(l) ELSE dok' = FALSE /\ pend' = pend
          ELSE IF StateOk(l) THEN dok' = TRUE /\ pend' = StatePend(l) ELSE dok' = FALSE /\ pend' = pend
  /\ UNCHANGED <<tys, tok, mother, modes>>
\* the whole list: unstable types have modes, and at their pole mass every one of them is open
\* lowest mass of every type: of its pole and of the sums of the lowest masses of its products
Lower(ms, least) == [x \in DOMAIN least |->
  IF Stable(tys[x]) \/ x \notin DOMAIN ms THEN least[x]
  ELSE LET S == {least[x]} \cup {SeqSum([k \in DOMAIN m.ds |-> least[m.ds[k]]]) : m \in ms[x]} IN CHOOSE v \in S : \A u \in S : v <= u]
RECURSIVE Least(_, _)
Least(ms, least) == LET l == Lower(ms, least) IN IF l = least THEN l ELSE Least(ms, l)
Dprime(c) == c.nuc /\ c.d[2] = 1 /\ c.d[3] = 2 /\ c.d[4] = 1
ListOk(ms) ==
  /\ LET least == Least(ms, [x \in DOMAIN tys |-> tys[x].mass]) IN
     \A t \in T : ~Stable(t) => /\ t.code \in DOMAIN ms /\ ms[t.code] # {}
                                /\ \A m \in ms[t.code] : t.mass > SeqSum([k \in DOMAIN m.ds |-> least[m.ds[k]]])
  /\ (\E t \in T : Dprime(t.c)) => \E t \in T : t.c.nuc /\ t.c.d = <<0, 1, 2, 0>> /\ ~t.c.anti
DecaysOk == dok /\ SectionOk /\ ListOk(Closed)
ListsInit == tys = [x \in {} |-> 0] /\ tok = TRUE /\ mother = "" /\ pend = [x \in {} |-> {}] /\ modes = [x \in {} |-> {}] /\ dok = TRUE
=============================================================================
