------------------------------- MODULE Config -------------------------------
(* Configuration trees: a tree is a set of <<path, text>> pairs (its leaves),   *)
(* a path is a sequence of labels.  "~" is a key without value; sections are   *)
(* the proper prefixes of paths (an empty section is no content).              *)
EXTENDS Integers, Sequences, FiniteSets
Pre(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Below(p, q) == p # q /\ Pre(p, q)
Under(T, p) == {x \in T : Pre(p, x[1])}
Leaf(T, p) == \E x \in T : x[1] = p
Text(T, p) == (CHOOSE x \in T : x[1] = p)[2]
Section(T, p) == \E x \in T : Below(p, x[1])
HasKey(T, p) == Leaf(T, p)
HasValue(T, p) == Leaf(T, p) /\ Text(T, p) # "~"
\* a path that runs through a leaf
Through(T, p) == \E x \in T : Below(x[1], p)
ThroughValue(T, p) == \E x \in T : Below(x[1], p) /\ x[2] # "~"
Tree(T) == \A x, y \in T : (x[1] = y[1] => x = y) /\ ~Below(x[1], y[1])
\* operations
Remove(T, p) == T \ Under(T, p)
Put(T, p, v) == {x \in Remove(T, p) : ~(Below(x[1], p) /\ x[2] = "~")} \cup {<<p, v>>}
\* everything given replaces what is at or below its path, the rest stays
Merge(T, G) == {x \in T : \A g \in G : ~Pre(g[1], x[1]) /\ ~(Below(x[1], g[1]) /\ x[2] = "~")} \cup G
Conflict(T, G) == \E g \in G : ThroughValue(T, g[1])
Sub(T, p) == {<<SubSeq(x[1], Len(p) + 1, Len(x[1])), x[2]>> : x \in {y \in T : Below(p, y[1])}}
Enclose(T, p) == {<<p \o x[1], x[2]>> : x \in T}
ButOne(T, sec, key) == {x \in T : ~Below(sec, x[1]) \/ Pre(sec \o <<key>>, x[1])}
Top(T) == {x[1][1] : x \in T}
=============================================================================
