---------------------------- MODULE FormatsTrace ----------------------------
(* The files written by the real outputs, block by block, against the calls.   *)
EXTENDS Formats, TraceLib, FiniteSets
VARIABLES i, sess, f, q
\* sess: number of the line where the session begins; f: the file being read; q: the blocks it still has to contain,
\* as <<line of the call, kind>>
vars == <<i, sess, f, q>>

Abs(x) == IF x < 0 THEN -x ELSE x
\* numbers: <<8 digits, exponent, 8 digits>>
Near(a, b, tol) ==
  IF a[2] = b[2] THEN Abs(a[1] - b[1]) <= tol
  ELSE IF a[1] = 0 \/ b[1] = 0 \/ a[2] > 9000 \/ b[2] > 9000 THEN FALSE
  ELSE IF a[2] = b[2] + 1 THEN Abs(a[1] * 10 - b[1]) <= 10 * tol
  ELSE IF b[2] = a[2] + 1 THEN Abs(b[1] * 10 - a[1]) <= 10 * tol ELSE FALSE
\* |a - b| small compared with 1e-12, for derived quantities near zero
Tiny(a, b) == (a[2] < -11 \/ a[1] = 0) /\ (b[2] < -11 \/ b[1] = 0)
Derived == {"mass", "tau", "eta", "eta_s", "mt", "Rap", "y_rap"}
Precise == {"p0", "px", "py", "pz"}
Same(col, bin, a, b) ==
  IF Len(a) = 1 THEN a = b
  ELSE IF col \in Derived THEN Tiny(a, b) \/ Near(a, b, IF bin THEN 30 ELSE 80)
  ELSE IF bin THEN a[1] = b[1] /\ a[2] = b[2] /\ Abs(a[3] - b[3]) <= 1
  ELSE Near(a, b, IF col \in Precise THEN 2 ELSE 51)
RowOK(cols, bin, row, p) == Len(row) = Len(cols) /\ \A k \in 1..Len(cols) : Same(cols[k], bin, row[k], p[cols[k]])
RowsOK(cols, bin, rows, ps) == Len(rows) = Len(ps) /\ \A k \in 1..Len(ps) : RowOK(cols, bin, rows[k], ps[k])

Units == [t |-> "fm", x |-> "fm", y |-> "fm", z |-> "fm", mass |-> "GeV", p0 |-> "GeV", px |-> "GeV", py |-> "GeV", pz |-> "GeV",
          pdg |-> "none", ID |-> "none", id |-> "none", charge |-> "e", ncoll |-> "none", form_time |-> "fm", xsecfac |-> "none",
          proc_id_origin |-> "none", proc_type_origin |-> "none", time_last_coll |-> "fm", pdg_mother1 |-> "none",
          pdg_mother2 |-> "none", baryon_number |-> "none", strangeness |-> "none", tau |-> "fm", eta |-> "none", eta_s |-> "none",
          mt |-> "GeV", Rap |-> "none", y_rap |-> "none", spin0 |-> "none", spinx |-> "none", spiny |-> "none", spinz |-> "none",
          perturbative_weight |-> "none"] @@ ("0" :> "0")
Aliases == {<<"ID", "id">>, <<"eta_s", "eta">>, <<"y_rap", "Rap">>}
Elems(s) == {s[k] : k \in DOMAIN s}
Acceptable(qs) == /\ qs # <<>> /\ \A k \in DOMAIN qs : qs[k] \in DOMAIN Units
                  /\ Cardinality(Elems(qs)) = Len(qs)
                  /\ \A a \in Aliases : ~({a[1], a[2]} \subseteq Elems(qs))

Std == <<"t", "x", "y", "z", "mass", "p0", "px", "py", "pz", "pdg", "ID", "charge">>
Ext == Std \o <<"ncoll", "form_time", "xsecfac", "proc_id_origin", "proc_type_origin", "time_last_coll", "pdg_mother1", "pdg_mother2",
                "baryon_number", "strangeness">>
Columns(o) == CASE o.format = "Oscar1999" -> <<"id", "pdg", "0", "px", "py", "pz", "p0", "mass", "x", "y", "z", "t">>
                [] o.format = "For_vHLLE" -> <<"tau", "x", "y", "eta", "mt", "px", "py", "Rap", "pdg", "charge", "baryon_number", "strangeness">>
                [] o.format = "ASCII" -> o.q
                [] o.format = "Binary" /\ o.q # <<>> -> o.q
                [] OTHER -> IF o.ext THEN Ext ELSE Std
TextName == [Particles |-> "particle_lists", Collisions |-> "full_event_history", Dileptons |-> "Dileptons", Photons |-> "Photons",
             Initial_Conditions |-> "SMASH_IC"]
BinName == [Particles |-> "particles", Collisions |-> "collisions", Dileptons |-> "Dileptons", Photons |-> "Photons",
            Initial_Conditions |-> "SMASH_IC"]
FileName(o) ==
  CASE o.format = "For_vHLLE" -> "SMASH_IC_For_vHLLE.dat"
    [] o.format = "Oscar2013" -> TextName[o.content] \o ".oscar"
    [] o.format = "Oscar1999" -> TextName[o.content] \o ".oscar1999"
    [] o.format = "ASCII" -> TextName[o.content] \o ".dat"
    [] OTHER -> BinName[o.content] \o (IF Columns(o) = Std THEN "_oscar2013.bin" ELSE IF Columns(o) = Ext THEN "_oscar2013_extended.bin" ELSE "_custom.bin")
UnitsOf(cols) == [k \in DOMAIN cols |-> Units[cols[k]]]
Lead == [Oscar2013 |-> "#!OSCAR2013", ASCII |-> "#!ASCII"]
HeadOK(o, h) ==
  CASE Bin(o) -> h[2] = (IF Columns(o) = Std THEN 0 ELSE IF Columns(o) = Ext THEN 1 ELSE h[2])
                 /\ (Columns(o) \notin {Std, Ext} => h[2] \notin {0, 1})
    [] o.format = "Oscar1999" ->
         /\ h[1] = <<"#", "OSC1999A">>
         /\ h[2] = <<"#", IF o.content = "Particles" THEN "final_id_p_x" ELSE TextName[o.content]>>
         /\ h[3][1] = "#" /\ Len(h[3]) > 1
         /\ (o.content = "Particles" => h[5] = <<"#", "nin", "nout", "event_number", "ensemble_number">>)
         /\ (o.content = "Collisions" => h[5] = <<"#", "nin", "nout", "density", "tot_weight", "part_weight", "proc_type">>)
         /\ h[6] = <<"#">> \o Columns(o)
         /\ h[7] = <<"#", "End", "of", "event:", "0", "0", "event_number", "ensemble_number", "impact_parameter">>
    [] o.format = "For_vHLLE" -> h[1][1] = "#" /\ h[2] = <<"#">> \o Columns(o) /\ h[3] = <<"#">> \o UnitsOf(Columns(o))
    [] OTHER -> /\ h[1] = <<IF o.format = "ASCII" THEN "#!ASCII" ELSE IF o.ext THEN "#!OSCAR2013Extended" ELSE "#!OSCAR2013", TextName[o.content]>> \o Columns(o)
                /\ h[2] = <<"#", "Units:">> \o UnitsOf(Columns(o))
                /\ h[3][1] = "#" /\ Len(h[3]) > 1
----
Calls == {"start", "mid", "int", "end"}
Wanted(c, o) == Expected(c.op, IF c.op = "end" THEN c.empty ELSE FALSE, IF c.op = "int" /\ Len(c.in) = 1 THEN c.in[1].ncoll[1] = 0 ELSE FALSE, o)
RECURSIVE Queue(_, _, _)
Queue(a, b, o) == IF a > b THEN <<>>
                  ELSE (IF Trace[a].op \in Calls THEN LET w == Wanted(Trace[a], o) IN [k \in DOMAIN w |-> <<a, w[k]>>] ELSE <<>>) \o Queue(a + 1, b, o)

F7(a, b) == Abs(a[1] - b[1]) <= 1                         \* %12.7f
WeightOK(o, b, c) == IF Bin(o) THEN b.w[2] = c.w[2] ELSE IF o.format = "Oscar1999" THEN F7(b.w, c.w) ELSE Near(b.w[2], c.w[2], 6)
ImpactOK(b, c, o) == IF Bin(o) THEN b.impact[2] = c.impact[2] ELSE Abs(b.impact[1] - c.impact[1]) <= 1
IntOK(o, b, c) ==
  /\ b.b = "int" /\ b.nin = Len(c.in) /\ b.nout = Len(c.out) /\ b.type = c.type
  /\ (IF Bin(o) THEN b.rho[2] = c.rho[2] /\ b.pw[2] = c.pw[2] ELSE F7(b.rho, c.rho) /\ F7(b.pw, c.pw))
  /\ WeightOK(o, b, c) /\ RowsOK(Columns(o), Bin(o), b.rows, c.in \o c.out)
Label(b, c) == b.ev = c.ev /\ b.ens = c.ens
BlockOK(o, b, c, kind) ==
  LET osc99 == o.format = "Oscar1999" IN
  CASE kind = "int" -> IntOK(o, b, c)
    [] kind \in {"in", "out"} ->
         /\ Label(b, c) /\ RowsOK(Columns(o), Bin(o), b.rows, c.parts)
         /\ CASE Bin(o) -> b.b = "p"
              [] osc99 -> b.b = "p" /\ b.a = (IF kind = "in" THEN 0 ELSE Len(c.parts)) /\ b.z = (IF kind = "in" THEN Len(c.parts) ELSE 0)
              [] OTHER -> b.b = kind /\ b.n = Len(c.parts)
    [] kind = "close" -> /\ b.b = "close" /\ Label(b, c) /\ ImpactOK(b, c, o)
                         /\ (osc99 => b.a = 0 /\ b.z = 0) /\ (~osc99 => b.empty = c.empty)
    [] kind = "icp" -> b.b = "p" /\ RowsOK(Columns(o), TRUE, b.rows, c.in)
    [] kind = "row" -> b.b = "row" /\ RowsOK(Columns(o), FALSE, b.rows, c.in)
    [] kind = "start" -> Label(b, c) /\ (IF osc99 THEN b.b = "p" /\ b.a = 0 /\ b.z = 0 /\ b.rows = <<>> ELSE b.b = "start")
    [] OTHER -> b.b = kind /\ Label(b, c)
----
NoFile == [format |-> "none"]
Init == i = 1 /\ sess = 1 /\ f = NoFile /\ q = <<>>
Session(e) == e.op = "session" /\ f = NoFile /\ sess' = i /\ UNCHANGED <<f, q>>
Call(e) == e.op \in Calls /\ f = NoFile /\ UNCHANGED <<sess, f, q>>
Quantities(e) == e.op = "quantities" /\ e.res = (IF Acceptable(e.q) THEN "ok" ELSE "exception") /\ UNCHANGED <<sess, f, q>>
Opts(e) == [format |-> e.format, content |-> e.content, q |-> e.q, ext |-> e.ext, only |-> e.only, pse |-> e.pse]
File(e) == /\ e.op = "file" /\ f = NoFile
           /\ f' = Opts(e) /\ e.name = FileName(Opts(e)) /\ e.cols = Columns(Opts(e)) /\ HeadOK(Opts(e), e.head)
           /\ q' = Queue(sess, i, Opts(e)) /\ UNCHANGED sess
Block(e) == /\ e.op = "block" /\ q # <<>> /\ BlockOK(f, e, Trace[Head(q)[1]], Head(q)[2])
            /\ q' = Tail(q) /\ UNCHANGED <<sess, f>>
Eof(e) == e.op = "eof" /\ q = <<>> /\ f' = NoFile /\ UNCHANGED <<sess, q>>
Chunk(e) == /\ e.op = "chunk" /\ UNCHANGED <<sess, f, q>>
            /\ e.res = (IF e.parts # <<>> /\ 2 * e.one > e.max THEN "exception" ELSE "ok")
            /\ (e.res = "ok" => RowsOK(e.q, e.bin, e.rows, e.parts))
\* VTK: one file for the start and for each output time of an event and ensemble
VtkCalls == {k \in sess..i : Trace[k].op \in {"start", "mid"}}
VtkDir(e) == e.op = "vtkdir" /\ e.n = Cardinality(VtkCalls) /\ UNCHANGED <<sess, f, q>>
VtkOK(e, c) ==
  LET ps == c.parts
      Col(name, key) == Len(e[name]) = Len(ps) /\ \A k \in 1..Len(ps) : Same(key, FALSE, e[name][k], ps[k][key])
  IN /\ e.n = Len(ps) /\ e.data = e.n /\ e.cells = <<e.n, 2 * e.n>> \o [k \in 1..e.n |-> k - 1]
     /\ e.types = <<e.n>> \o [k \in 1..e.n |-> 1]
     /\ \A k \in 1..e.n : /\ \A a \in 1..3 : Near(e.pos[k][a], ps[k][<<"x", "y", "z">>[a]], 51)
                          /\ \A a \in 1..3 : Near(e.p[k][a], ps[k][<<"px", "py", "pz">>[a]], 51)
                          /\ e.pdg_codes[k] = ps[k].pdgs
     /\ Col("cross_section_scaling_factor", "xsecfac") /\ Col("mass", "mass") /\ Col("N_coll", "ncoll")
     /\ Col("particle_ID", "ID") /\ Col("baryon_number", "baryon_number") /\ Col("strangeness", "strangeness")
     /\ \A k \in 1..e.n : LET a == ps[k].form_time  b == ps[k].t
                              later == IF a[2] = b[2] THEN a[1] > b[1] \/ (a[1] = b[1] /\ a[3] > b[3])
                                       ELSE IF a[1] > 0 /\ b[1] > 0 THEN a[2] > b[2] ELSE a[1] > b[1]
                          IN e.is_formed[k] = <<IF later THEN 0 ELSE 1>>
Vtk(e) == /\ e.op = "vtk" /\ UNCHANGED <<sess, f, q>>
          /\ \E k \in VtkCalls : /\ Trace[k].ev = e.ev /\ Trace[k].ens = e.ens
                                 /\ e.k = Cardinality({l \in VtkCalls : l < k /\ Trace[l].ev = e.ev /\ Trace[l].ens = e.ens})
                                 /\ VtkOK(e, Trace[k])
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i] IN Session(e) \/ Call(e) \/ Quantities(e) \/ File(e) \/ Block(e) \/ Eof(e) \/ Chunk(e) \/ VtkDir(e) \/ Vtk(e)
Spec == Init /\ [][Next]_vars
=============================================================================
