------------------------------ MODULE PdgTrace ------------------------------
EXTENDS TraceLib, Pdg
VARIABLES i
vars == <<i>>
E == Trace[i]
Range(s) == {s[k] : k \in DOMAIN s}
Facts(r, c) ==
  /\ r.dec = Dec(c) /\ r.str = ToString(Dec(c))
  /\ r.charge = Charge(c) /\ r.B = B(c) /\ r.S = Strange(c) /\ r.C = Charm(c) /\ r.b = Bottom(c) /\ r.iso3 = Iso3(c)
  /\ r.net = [q \in 1..6 |-> Net(c, q)] /\ ((Meson(c) /\ c.d[5] < c.d[6]) \/ r.content = Content(c)) /\ r.nuc = Nuc(c) /\ r.quarks = Quarks(c)
  /\ Range(r.is) = Is(c) /\ r.has = HasAnti(c) /\ r.sign = Sign(c)
  /\ r.spin = Spin(c) /\ r.deg = Deg(c) /\ r.ground = Dec(Ground(c))
  /\ r.fs = Frac(c, 3) /\ r.fc = Frac(c, 4) /\ r.fb = Frac(c, 5)
  /\ (Hadron(c) => Range(r.enough) = Enough(c))
CodeOf == /\ E.op = "code"
          /\ IF Accepted2(E.sign, E.digits) THEN
               LET c == Code(E.sign, E.digits) IN
                 /\ E.res = "ok" /\ Facts(E.is, c) /\ Facts(E.anti, Anti(c)) /\ E.twice /\ E.stream
                 /\ E.fromdec = "same" /\ E.fromtext = "same" /\ E.fromcode = "same" /\ E.fromdump = "same"
             ELSE E.res = "refused" /\ ~E.stream
\* order and equality of three codes
Triple == /\ E.op = "triple"
          /\ E.eq[1] = (E.x = E.y) /\ E.eq[2] = (E.y = E.z) /\ E.eq[3] = (E.x = E.z)
          /\ \A k \in 1..3 : E.ne[k] = ~E.eq[k] /\ Cardinality({j \in {k, k + 3} : E.lt[j]}) = (IF E.eq[k] THEN 0 ELSE 1)
          /\ (E.lt[1] /\ E.lt[2] => E.lt[3]) /\ (E.lt[4] /\ E.lt[5] => E.lt[6])
          /\ (~E.nuc => E.anti[1] = (E.x = -E.y) /\ E.anti[2] = (E.x = -E.y))
Pairs == {{11, -11}, {13, -13}, {12, -11}, {11, -12}}
Leptons == /\ E.op = "leptons" /\ E.two = ({E.l[1], E.l[2]} \in Pairs)
           /\ E.pair = \E j, k \in 1..3 : j # k /\ {E.l[j], E.l[k]} \in Pairs
Init == i = 1
Next == i <= Len(Trace) /\ i' = i + 1 /\ (CodeOf \/ Triple \/ Leptons)
Spec == Init /\ [][Next]_vars
=============================================================================
