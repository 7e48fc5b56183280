---------------------------- MODULE ConfigTrace -----------------------------
(* Operations on real configuration objects.                                   *)
EXTENDS TraceLib, Config
VARIABLES i, cf      \* cf: number of a configuration -> [t: tree, k: keys taken, loose: bookkeeping of taken keys left open, odd: after a refused merge]
vars == <<i, cf>>
E == Trace[i]
S(s) == {<<s[k][1], s[k][2]>> : k \in DOMAIN s}
Sane(s) == Cardinality(S(s)) = Len(s) /\ Tree(S(s))
C == cf[E.c]
T == C.t
With(t, k) == [C EXCEPT !.t = t, !.k = k]
To(r) == cf' = [x \in DOMAIN cf \cup {E.c} |-> IF x = E.c THEN r ELSE cf[x]]
New(t) == [t |-> t, k |-> {}, loose |-> FALSE, odd |-> FALSE]
\* conversions: the text of the value, or FALSE-like marker
Bad == "**"
Seqs == {"[1, 2]", "[a, b]", "[]", "[1, 2, 3]"}
Conv(type, x) ==
  CASE type = "int" -> IF x \in {"7", "-3", "0", "12"} THEN x ELSE Bad
    [] type = "double" -> IF x \in {"7", "-3", "2.5", "0", "12"} THEN x ELSE IF x = "1e3" THEN "1000" ELSE Bad
    [] type = "bool" -> IF x = "true" THEN "true" ELSE IF x \in {"off", "No"} THEN "false" ELSE Bad
    [] type = "string" -> IF x \in Seqs THEN Bad ELSE x
    [] type = "strings" -> IF x \in Seqs THEN x ELSE Bad
    [] type = "array2" -> IF x = "[1, 2]" THEN x ELSE Bad
    [] type = "map" -> Bad
\* text of a section taken as a map of strings (labels A, B, C)
Labels == <<"A", "B", "C">>
Flat(t, p) == \A x \in t : Below(p, x[1]) => Len(x[1]) = Len(p) + 1 /\ x[2] \notin Seqs \cup {"~"} /\ x[1][Len(x[1])] \in {"A", "B", "C"}
MapText(t, p) == LET f[n \in 0..3] == IF n = 0 THEN "" ELSE
                           IF Leaf(t, p \o <<Labels[n]>>) THEN f[n - 1] \o (IF f[n - 1] = "" THEN "" ELSE ", ") \o Labels[n] \o ": " \o Text(t, p \o <<Labels[n]>>)
                           ELSE f[n - 1]
                 IN "{" \o f[3] \o "}"
Valid(v) == E.kind # 3 \/ v = E.def
Through1(t, p) == \E x \in t : Below(x[1], p) /\ x[2] \in Seqs      \* descending into a sequence: an error, or nothing there
\* outcome of asking for the key
Answer ==
  IF E.withdef /\ E.kind # 2 THEN E.res = "logic"
  ELSE IF HasValue(T, E.path) THEN
         LET v == Conv(E.type, Text(T, E.path))
         IN IF v = Bad THEN E.res \in {"type", "error"} ELSE IF ~Valid(v) THEN E.res = "invalid" ELSE E.res = "ok" /\ E.value = v
  ELSE IF E.withdef THEN E.res = "ok" /\ E.value = E.given
  ELSE IF Section(T, E.path) THEN
         IF E.type # "map" THEN E.res = "logic"
         ELSE IF ~Flat(T, E.path) THEN TRUE
         ELSE IF ~Valid(MapText(T, E.path)) THEN E.res = "invalid" ELSE E.res = "ok" /\ E.value = MapText(T, E.path)
  ELSE \/ C.odd /\ IF E.type = "map" THEN (E.res = "ok" /\ E.value = "{}") \/ E.res = "invalid" ELSE E.res = "logic"   \* an empty section
       \/ E.op = "take" /\ (E.path \in C.k \/ C.loose) /\ E.res = "twice"
       \/ (E.op = "read" \/ E.path \notin C.k \/ C.loose) /\ IF E.kind \in {1, 3} THEN E.res = "ok" /\ E.value = E.def ELSE E.res = "invalid"
Found == (HasValue(T, E.path) \/ (Section(T, E.path) /\ E.type = "map" /\ ~E.withdef)) /\ ~(E.withdef /\ E.kind # 2)
Take == /\ E.op = "take"
        /\ \/ Answer
           \/ Through1(T, E.path) /\ E.res = "error"
        /\ LET gone == With(Remove(T, E.path), C.k \cup {E.path})
           IN IF ~Found THEN S(E.tree) = T /\ To(C)
              ELSE \/ S(E.tree) = gone.t /\ To(gone)
                   \/ E.res # "ok" /\ S(E.tree) = T /\ To(C)
Read == /\ E.op = "read"
        /\ \/ Answer
           \/ Through1(T, E.path) /\ E.res = "error"
        /\ S(E.tree) = T /\ To(C)
Adopt(t) == To([C EXCEPT !.t = t, !.loose = TRUE, !.odd = TRUE])
MergeIn == /\ E.op = "merge"
           /\ IF Conflict(T, S(E.given)) THEN Adopt(S(E.tree))
              ELSE E.res = "ok" /\ S(E.tree) = Merge(T, S(E.given)) /\ To([C EXCEPT !.t = Merge(T, S(E.given))])
Set1 == /\ E.op = "set"
        /\ IF ThroughValue(T, E.path) THEN Adopt(S(E.tree))
           ELSE E.res = "ok" /\ S(E.tree) = Put(T, E.path, E.value) /\ To([C EXCEPT !.t = Put(T, E.path, E.value)])
But == /\ E.op = "butone"
       /\ LET p == E.path
              there == \E x \in T : Pre(p \o <<E.key>>, x[1])
          IN IF there THEN E.res = "ok" /\ S(E.tree) = ButOne(T, p, E.key) /\ To([C EXCEPT !.t = ButOne(T, p, E.key)])
             ELSE E.res \in (IF \E x \in T : Pre(x[1], p) /\ x[2] \in Seqs THEN {"invalid", "error"} ELSE IF C.odd THEN {"invalid", "ok"} ELSE {"invalid"}) /\ S(E.tree) = T /\ To(C)
Extract == /\ E.op = "extract"
           /\ IF Section(T, E.path) THEN
                /\ E.res = "ok" /\ S(E.tree) = Remove(T, E.path)
                /\ S(E.sub) = IF E.complete THEN Under(T, E.path) ELSE Sub(T, E.path)
                /\ cf' = [x \in DOMAIN cf \cup {E.d} |-> IF x = E.c THEN [C EXCEPT !.t = Remove(T, E.path)] ELSE IF x = E.d THEN New(S(E.sub)) ELSE cf[x]]
              ELSE /\ S(E.tree) = T
                   /\ IF Leaf(T, E.path) THEN E.res = "error" /\ UNCHANGED cf
                      ELSE \/ (~E.empty \/ Through1(T, E.path) \/ C.odd) /\ E.res = "error" /\ UNCHANGED cf
                           \/ /\ E.empty /\ E.res = "ok" /\ S(E.sub) = {}
                              /\ cf' = [x \in DOMAIN cf \cup {E.d} |-> IF x = E.d THEN [New({}) EXCEPT !.odd = E.complete] ELSE cf[x]]
Inclose == /\ E.op = "enclose" /\ E.res = "ok" /\ S(E.tree) = Enclose(T, E.path)
           /\ To([C EXCEPT !.t = Enclose(T, E.path), !.loose = TRUE])
Query == /\ E.op = "query" /\ UNCHANGED cf
         /\ E.has_key = HasKey(T, E.path) /\ E.has_value = HasValue(T, E.path)
         /\ (C.odd \/ E.has_section = Section(T, E.path))
         /\ ((C.odd /\ T = {}) \/ E.empty = (T = {}))
         /\ ((C.odd /\ T = {}) \/ ({E.top[k] : k \in DOMAIN E.top} = Top(T) /\ Len(E.top) = Cardinality(Top(T))))
Move == /\ E.op = "move" /\ E.tree = <<>> /\ S(E.sub) = T
        /\ cf' = [x \in DOMAIN cf \cup {E.d} |-> IF x = E.c THEN New({}) ELSE IF x = E.d THEN C ELSE cf[x]]
Drop(c) == cf' = [x \in DOMAIN cf \ {c} |-> cf[x]]
Destroy == /\ E.op = "destroy"
           /\ LET t == IF E.cleared THEN {} ELSE T
              IN (C.odd /\ t = {}) \/ E.res = IF t = {} THEN "ok" ELSE "logic"
           /\ E.moved = "ok"
           /\ Drop(E.c)
Clear == E.op = "clear" /\ E.tree = <<>> /\ To([C EXCEPT !.t = {}])
Create == /\ E.op = "new" /\ Sane(E.given) /\ S(E.tree) = S(E.given) /\ To(New(S(E.given)))
\* text that is no YAML
Refused == E.op = "refused" /\ E.text \in {"A: {B: 1", "A: 1\n B: 2\n", "A: [1, 2", "a: b: c"} /\ UNCHANGED cf
Begin == E.op = "begin" /\ cf' = <<>>
Init == i = 1 /\ cf = <<>>
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ (Has(E, "tree") => Sane(E.tree))
        /\ (Begin \/ Create \/ Refused \/ Take \/ Read \/ MergeIn \/ Set1 \/ But \/ Extract \/ Inclose \/ Query \/ Move \/ Destroy \/ Clear)
Spec == Init /\ [][Next]_vars
=============================================================================
