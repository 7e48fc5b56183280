------------------------------ MODULE ListsTrace ----------------------------
(* What the code made of particle and decay mode lists.                        *)
EXTENDS TraceLib, Lists
VARIABLES i
vars == <<i, tys, tok, mother, pend, modes, dok>>
E == Trace[i]
NoModes == mother = "" /\ pend = [x \in {} |-> {}] /\ modes = [x \in {} |-> {}] /\ dok = TRUE
NoModes2 == mother' = "" /\ pend' = [x \in {} |-> {}] /\ modes' = [x \in {} |-> {}] /\ dok' = TRUE
Trial == E.op = "trial" /\ tys' = [x \in {} |-> 0] /\ tok' = TRUE /\ NoModes2
TypeEv == E.op = "type" /\ TypeLine(E)
Tried == E.op = "tried" /\ (E.res = "ok") = tok /\ UNCHANGED lists
RowOk(r) == LET t == tys[r.code] IN
  /\ r.name = Name(t) /\ r.mass = t.mass /\ r.width = t.width /\ r.par = t.par /\ r.mult = t.mult
  /\ r.charge = Charge(t.c) /\ r.iso = Iso(t) /\ r.iso3 = Iso3(t.c) /\ r.stable = Stable(t) /\ (Spin(t.c) # -1 => r.spin = Spin(t.c)) /\ r.B = B(t.c) /\ r.S = Strange(t.c)
  /\ r.hasanti = HasAnti(t.c) /\ r.anti = (IF HasAnti(t.c) THEN Dec(Anti(t.c)) ELSE 0) /\ r.self
MultRow(r) == LET s == States(r.name) IN
  /\ Range(r.states) = {t.code : t \in s} /\ Len(r.states) = Cardinality(s) /\ r.iso = Cardinality(s) - 1
  /\ (\E t \in s : t.mass = r.mass) /\ (\E t \in s : t.width = r.width) /\ (\E t \in s : t.par = r.par) /\ r.anti = AntiMult(r.name)
CodesSet(s) == {t.code : t \in s}
AntiSet(s) == {Dec(Anti(t.c)) : t \in s}
Exactly(s, S) == Range(s) = S /\ Len(s) = Cardinality(S)
Types ==
  /\ E.op = "types" /\ (E.res = "ok") = tok /\ UNCHANGED lists
  /\ (tok =>
      /\ Exactly([k \in DOMAIN E.table |-> E.table[k].code], DOMAIN tys) /\ \A k \in DOMAIN E.table : RowOk(E.table[k])
      /\ Exactly([k \in DOMAIN E.mults |-> E.mults[k].name], Mults) /\ \A k \in DOMAIN E.mults : MultRow(E.mults[k])
      /\ \A k \in DOMAIN E.look : LET q == E.look[k] IN IF q[1] \in DOMAIN tys THEN q = <<q[1], 1, 1, q[1]>> ELSE q = <<q[1], 0, 0, 0>>
      /\ Exactly(E.nucleons, CodesSet(States("N"))) /\ Exactly(E.antinucleons, AntiSet(States("N")))
      /\ Exactly(E.deltas, CodesSet(States("{394}"))) /\ Exactly(E.antideltas, AntiSet(States("{394}")))
      /\ LET R == {t \in T : ~Stable(t) /\ B(t.c) = 1} IN Exactly(E.resonances, CodesSet(R) \cup AntiSet(R))
      /\ Exactly(E.nuclei, {t.code : t \in {u \in T : u.c.nuc}})
      /\ Exactly(E.isores, {m \in Mults : \E t \in States(m) : ~Stable(t) /\ B(t.c) > 0}))
HeadEv == E.op = "head" /\ HeadLine(E.name)
ModeEv == E.op = "mode" /\ ModeLine(E)
Again == E.op = "again" /\ E.res = "exception" /\ ~dok /\ NoModes2 /\ UNCHANGED <<tys, tok>>
\* value / total in millionths
RECURSIVE Digits(_, _, _, _)
Digits(q, rem, tot, k) == IF k = 0 THEN q ELSE Digits(10 * q + (10 * rem) \div tot, (10 * rem) % tot, tot, k - 1)
Share(w, tot) == Digits(w \div tot, w % tot, tot, 6)
ModesOk(got, want, tol) ==
  /\ Len(got) = Cardinality(want)
  /\ \A m \in want : \E k \in DOMAIN got : got[k].ds = m.ds /\ got[k].L = m.L /\ Abs(got[k].w - Share(m.w, m.tot)) <= tol
  /\ Abs(SeqSum([k \in DOMAIN got |-> got[k].w]) - 1000000) <= 2 * Len(got)
Decays ==
  /\ E.op = "decays" /\ (E.res = "ok") = DecaysOk /\ NoModes2 /\ UNCHANGED <<tys, tok>>
  /\ (DecaysOk => LET ms == Closed
                      some == {x \in DOMAIN ms : ms[x] # {}} IN
                  /\ Exactly([k \in DOMAIN E.modes |-> E.modes[k].code], some)
                  /\ \A k \in DOMAIN E.modes : ModesOk(E.modes[k].list, ms[E.modes[k].code], E.tol))
Init == i = 1 /\ ListsInit
Next == i <= Len(Trace) /\ i' = i + 1 /\ (Trial \/ TypeEv \/ Tried \/ Types \/ HeadEv \/ ModeEv \/ Again \/ Decays)
Spec == Init /\ [][Next]_vars
=============================================================================
