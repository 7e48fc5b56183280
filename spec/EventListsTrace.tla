--------------------------- MODULE EventListsTrace --------------------------
(* What the real list modus makes of files: construction, and one record per   *)
(* event asked for. Numbers are multiples of 1e-9 of any width (BigInt).       *)
EXTENDS TraceLib, BigInt, EventLists
VARIABLES i, cs
vars == <<i, cs, files, single, at>>
E == Trace[i]
Types == CHOOSE r \in {Trace[1]} : TRUE
Known(pdg) == \E k \in DOMAIN Types.types : Types.types[k].pdg = pdg
Type(pdg) == LET k == CHOOSE n \in DOMAIN Types.types : Types.types[n].pdg = pdg IN Types.types[k]
ProcessTypes == (0..15) \cup {21} \cup (41..47) \cup {90}
Zero == <<0>>
Unit == BMul(BI(100000), BI(10000))
Micro == BI(1000)
\* ------ the verdict on a line
Words == {"ID", "charge", "ncoll", "form_time", "xsecfac", "proc_type", "time_last_coll", "pdg_mother1", "pdg_mother2", "spin0", "spinx", "spiny", "spinz", "perturbative_weight"}
OptBad(o, r) ==
  IF o.f \notin Words THEN TRUE
  ELSE IF o.f = "ID" THEN FALSE
  ELSE IF o.f \in {"pdg_mother1", "pdg_mother2"} THEN o.s # "0" /\ ~Known(o.s)
  ELSE IF ~o.num THEN TRUE
  ELSE IF o.f = "charge" THEN o.n # Type(r.pdg).charge
  ELSE IF o.f = "ncoll" THEN o.n < 0
  ELSE IF o.f = "proc_type" THEN o.n \notin ProcessTypes
  ELSE IF o.f \in {"xsecfac", "perturbative_weight"} THEN BLess(o.v, Zero) \/ BLess(Unit, o.v)
  ELSE IF o.f = "time_last_coll" THEN BLess(r.v[1], o.v)
  ELSE FALSE
Verdict(r) == IF r.form # "ok" THEN "refused" ELSE IF ~Known(r.pdg) THEN "ignored"
              ELSE IF \E k \in DOMAIN r.opts : OptBad(r.opts[k], r) THEN "refused" ELSE "taken"
Refused(rows) == \E k \in DOMAIN rows : Verdict(rows[k]) = "refused"
IsTaken(r) == Verdict(r) = "taken"
Taken(rows) == SelectSeq(rows, IsTaken)
\* ------ the check of all events in advance (up to the first one that cannot be read)
Crowd(rows) == LET ts == Taken(rows) IN \E k \in DOMAIN ts : Cardinality({l \in DOMAIN ts : \A c \in 1..4 : ts[l].v[c] = ts[k].v[c]}) > 2
RECURSIVE Crowded(_, _)
Crowded(evs, n) == IF n > Len(evs) \/ Refused(evs[n]) THEN FALSE ELSE Crowd(evs[n]) \/ Crowded(evs, n + 1)
SpinsGiven(c) == \A w \in {"spin0", "spinx", "spiny", "spinz"} : \E k \in DOMAIN c.fields : c.fields[k] = w
\* E.names: how many of the two ways to name the files are used; E.ens: number of ensembles
Constructed(c) == c.names = 1 /\ c.ens = 1 /\ (c.spin => SpinsGiven(c))
Case == /\ E.op = "case" /\ cs' = E /\ Open(E.files, E.single, E.first)
Ctor == /\ E.op = "ctor" /\ (E.res = "ok") = (Constructed(cs) /\ ~Crowded(EventsFrom(at[1], at[2]), 1)) /\ UNCHANGED <<cs, files, single, at>>
\* ------ the particles of an event
Opt(r, w) == LET S == {k \in DOMAIN r.opts : r.opts[k].f = w} IN IF S = {} THEN [f |-> ""] ELSE r.opts[CHOOSE k \in S : \A l \in S : l <= k]
Given(r, w) == Opt(r, w).f # ""
Sq(x) == BMul(x, x)
P2(r) == BAdd(Sq(r.v[7]), BAdd(Sq(r.v[8]), Sq(r.v[9])))
Near(a, b, tol) == BLeq(BAbs(BSub(a, b)), tol)
Earliest(ts) == CHOOSE t \in {ts[k].v[1] : k \in DOMAIN ts} : \A k \in DOMAIN ts : BLeq(t, ts[k].v[1])
RECURSIVE Spread(_, _)
Spread(ts, k) == IF k > Len(ts) THEN Zero ELSE BAdd(BAbs(BSub(ts[k].v[1], ts[1].v[1])), Spread(ts, k + 1))
Moved(ts) == BLess(Micro, Spread(ts, 1))
\* masses: a stable particle has the mass of its type, others the mass given; the energy is the given one if that is on shell
Mass(r) == LET t == Type(r.pdg) IN IF t.stable /\ BLess(Micro, BAbs(BSub(r.v[5], t.mass))) THEN t.mass ELSE r.v[5]
Off(e, r) == BAbs(BSub(Sq(e), BAdd(P2(r), Sq(Mass(r)))))
Eps == BMul(Unit, BI(1010))                 \* 1.01e-6
EnergyOk(e, r) ==
  IF Mass(r) = r.v[5] /\ BLess(Off(r.v[6], r), BMul(Unit, BI(990))) THEN e = r.v[6]
  ELSE \/ (Mass(r) = r.v[5] /\ e = r.v[6] /\ BLeq(Off(e, r), Eps))
       \/ (e[1] = 1 /\ BLeq(Off(e, r), BAdd(BMul(BI(4), e), BI(1000))))
\* a position is the given one moved straight to the common time, folded into the box if there is one
Shift(q, r, c, t0) == LET d == BSub(q.r[c], r.v[c]) IN
  BLeq(BAbs(BSub(BMul(q.p[1], d), BMul(BSub(t0, r.v[1]), r.v[5 + c]))), BMul(BI(3), BAdd(q.p[1], BAdd(BAbs(d), BAdd(BAbs(BSub(t0, r.v[1])), BI(100))))))
\* the box brings a coordinate into 0..length by whole lengths
Folded(q, r, c, t0) == LET L == cs.box IN
  /\ BLeq(BI(-10), q.r[c]) /\ BLeq(q.r[c], BAdd(L, BI(10)))
  /\ \E n \in -16..16 : Shift([q EXCEPT !.r[c] = BAdd(@, BMul(BI(n), L))], r, c, t0)
PosOk(q, r, t0, moved) == IF cs.box # Zero THEN \A c \in 2..4 : Folded(q, r, c, t0)
                          ELSE IF moved THEN \A c \in 2..4 : Shift(q, r, c, t0)
                          ELSE \A c \in 2..4 : q.r[c] = r.v[c]
Num(r, w, d) == IF Given(r, w) THEN Opt(r, w).v ELSE d
IntOf(r, w) == IF Given(r, w) THEN Opt(r, w).n ELSE 0
Mother(r, w) == IF Given(r, w) THEN Opt(r, w).s ELSE "0"
NaN == <<1, 9999, 9999, 9999, 9999, 9999, 9999>>
\* files written by the program show the scaling factor of the moment
Xs(q, x) == IF ~Has(q, "w") /\ BLeq(q.f, q.r[1]) THEN q.xs = Unit ELSE q.xs = x
PartOk(q, r, k, t0, moved) ==
  /\ q.id = k - 1 /\ q.pdg = r.pdg
  /\ q.r[1] = (IF moved THEN t0 ELSE r.v[1])
  /\ PosOk(q, r, t0, moved)
  /\ q.p[2] = r.v[7] /\ q.p[3] = r.v[8] /\ q.p[4] = r.v[9] /\ EnergyOk(q.p[1], r)
  /\ IF moved THEN (IF Given(r, "form_time") \/ Given(r, "xsecfac") THEN BLeq(r.v[1], q.f) ELSE q.f = r.v[1] /\ Xs(q, Zero))
     ELSE q.f = Num(r, "form_time", r.v[1]) /\ Xs(q, Num(r, "xsecfac", Unit))
  /\ q.ncoll = IntOf(r, "ncoll") /\ q.proc = IntOf(r, "proc_type") /\ q.last = Num(r, "time_last_coll", r.v[1])
  /\ q.m1 = Mother(r, "pdg_mother1") /\ q.m2 = Mother(r, "pdg_mother2") 
  /\ Has(q, "w") => q.w = Num(r, "perturbative_weight", Unit)
  /\ Has(q, "spin") => q.spin = <<Num(r, "spin0", NaN), Num(r, "spinx", NaN), Num(r, "spiny", NaN), Num(r, "spinz", NaN)>>
Call ==
  /\ E.op = "call" /\ cs' = cs /\ Take
  /\ IF Exhausted THEN E.res = "refused"
     ELSE IF Refused(Rows) THEN E.res = "refused"
     ELSE LET ts == Taken(Rows) IN
       /\ E.res = "ok" /\ Len(E.ps) = Len(ts)
       /\ IF Len(ts) = 0 THEN E.start = Zero
          ELSE LET t0 == Earliest(ts)  moved == Moved(ts) IN
               E.start = t0 /\ \A k \in DOMAIN ts : PartOk(E.ps[k], ts[k], k, t0, moved)
TypesEv == E.op = "types" /\ UNCHANGED <<cs, files, single, at>>
Init == i = 1 /\ cs = [op |-> ""] /\ files = <<>> /\ single = TRUE /\ at = <<0, 0>>
Next == i <= Len(Trace) /\ i' = i + 1 /\ (TypesEv \/ Case \/ Ctor \/ Call)
Spec == Init /\ [][Next]_vars
=============================================================================
