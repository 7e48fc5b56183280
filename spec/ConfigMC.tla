------------------------------ MODULE ConfigMC ------------------------------
(* Two configurations, values are numbered tokens: none is lost, none appears  *)
(* twice, only what the operation concerns moves.                              *)
EXTENDS Config, TLC
CONSTANTS L, MaxTok
VARIABLES t, given, taken, gone   \* t: the two trees; tokens given, taken, replaced or discarded
vars == <<t, given, taken, gone>>
Paths == UNION {[1..n -> L] : n \in 1..2}
Id == 1..2
Toks(T) == {x[2] : x \in T}
Drop(c, T2) == gone \cup (Toks(t[c]) \ Toks(T2))
Init == t = [c \in Id |-> {}] /\ given = 0 /\ taken = {} /\ gone = {}
Set1 == \E c \in Id, p \in Paths : /\ given < MaxTok /\ ~Through(t[c], p)
          /\ LET T2 == Put(t[c], p, given + 1) IN t' = [t EXCEPT ![c] = T2] /\ gone' = Drop(c, T2)
          /\ given' = given + 1 /\ UNCHANGED taken
MergeIn == \E c \in Id, p, q \in Paths : /\ given + 1 < MaxTok /\ p # q /\ ~Pre(p, q) /\ ~Pre(q, p)
          /\ LET G == {<<p, given + 1>>, <<q, given + 2>>} IN
             /\ \A g \in G : ~Through(t[c], g[1])
             /\ LET T2 == Merge(t[c], G) IN t' = [t EXCEPT ![c] = T2] /\ gone' = Drop(c, T2)
          /\ given' = given + 2 /\ UNCHANGED taken
Take == \E c \in Id, p \in Paths : /\ Leaf(t[c], p)
          /\ taken' = taken \cup {Text(t[c], p)} /\ t' = [t EXCEPT ![c] = Remove(t[c], p)] /\ UNCHANGED <<given, gone>>
But == \E c \in Id, p \in Paths \cup {<<>>}, k \in L : /\ \E x \in t[c] : Pre(p \o <<k>>, x[1])
          /\ LET T2 == ButOne(t[c], p, k) IN t' = [t EXCEPT ![c] = T2] /\ gone' = Drop(c, T2)
          /\ UNCHANGED <<given, taken>>
Extract == \E c \in Id, p \in Paths, full \in BOOLEAN : /\ Section(t[c], p) /\ t[3 - c] = {}
          /\ t' = [t EXCEPT ![c] = Remove(@, p), ![3 - c] = IF full THEN Under(t[c], p) ELSE Sub(t[c], p)]
          /\ UNCHANGED <<given, taken, gone>>
Inclose == \E c \in Id, k \in L : /\ t[c] # {} /\ \A x \in t[c] : Len(x[1]) = 1
          /\ t' = [t EXCEPT ![c] = Enclose(@, <<k>>)] /\ UNCHANGED <<given, taken, gone>>
Move == \E c \in Id : t[3 - c] = {} /\ t' = [t EXCEPT ![c] = {}, ![3 - c] = t[c]] /\ UNCHANGED <<given, taken, gone>>
Clear == \E c \in Id : t' = [t EXCEPT ![c] = {}] /\ gone' = gone \cup Toks(t[c]) /\ UNCHANGED <<given, taken>>
Next == Set1 \/ MergeIn \/ Take \/ But \/ Extract \/ Inclose \/ Move \/ Clear
Spec == Init /\ [][Next]_vars
Trees == \A c \in Id : Tree(t[c])
\* every value given is in exactly one place
Conserved == /\ 1..given = Toks(t[1]) \cup Toks(t[2]) \cup taken \cup gone
             /\ Cardinality(t[1]) + Cardinality(t[2]) + Cardinality(taken) + Cardinality(gone) = given
\* a step touches one tree only, except handing a section (or everything) over
Local == [][\E c \in Id : t'[c] = t[c] \/ (t[3 - c] = {} /\ Toks(t'[1]) \cup Toks(t'[2]) = Toks(t[1]) \cup Toks(t[2]))]_vars
=============================================================================
