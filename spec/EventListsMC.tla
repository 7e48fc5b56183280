--------------------------- MODULE EventListsMC -----------------------------
(* Every small set of files: each row is handed out once, in order, in the     *)
(* event it stands in, and nothing is handed out after the last event.         *)
EXTENDS EventLists, TLC
CONSTANTS NLINES, NFILES
VARIABLES first, out, done
vars == <<files, single, at, first, out, done>>
Kinds == {"end", "row", "text", "blank"}
Bodies == UNION {[1..n -> Kinds] : n \in 0..NLINES}
Mark(f, b) == [n \in DOMAIN b |-> [k |-> b[n], f |-> f, n |-> n]]
\* files 1.., one of which may be missing
Init == /\ \E bs \in [1..NFILES -> Bodies], gap \in 0..NFILES :
             files = SelectSeq([f \in 1..NFILES |-> [id |-> f, lines |-> Mark(f, bs[f])]], LAMBDA x : x.id # gap)
        /\ single \in BOOLEAN /\ first \in 1..NFILES /\ at = <<first, 1>>
        /\ out = <<>> /\ done = FALSE
Step == ~done /\ Take /\ first' = first /\ (IF Exhausted THEN out' = out /\ done' = TRUE ELSE out' = Append(out, Rows) /\ done' = FALSE)
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Delivered == {<<i, j>> \in (DOMAIN out) \X (1..NLINES) : j \in DOMAIN out[i]}
Before(a, b) == a.f < b.f \/ (a.f = b.f /\ a.n < b.n)
InOrder == \A a, b \in Delivered : (a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])) => Before(out[a[1]][a[2]], out[b[1]][b[2]])
Together == \A i \in DOMAIN out : \A j, k \in DOMAIN out[i] :
  /\ out[i][j].f = out[i][k].f
  /\ \A n \in out[i][j].n..out[i][k].n : Lines(out[i][j].f)[n].k # "end"
Apart == \A i, l \in DOMAIN out : i # l => \A j \in DOMAIN out[i], k \in DOMAIN out[l] :
  out[i][j].f = out[l][k].f => \E n \in 1..NLINES : ((out[i][j].n < n /\ n < out[l][k].n) \/ (out[l][k].n < n /\ n < out[i][j].n)) /\ Lines(out[i][j].f)[n].k = "end"
\* which files are read: from the first one up to the first missing one
Reached == {f \in 1..NFILES : first <= f /\ (\A g \in first..f : Exists(g)) /\ (single => f = first)}
Complete == done => \A f \in 1..NFILES : Exists(f) => \A n \in DOMAIN Lines(f) : Lines(f)[n].k = "row" =>
     (f \in Reached <=> \E d \in Delivered : out[d[1]][d[2]] = Lines(f)[n])
Counted == done => Len(out) = Len(EventsFrom(first, 1))
Refuses == done => Exhausted
Ends == <>done
Inv == InOrder /\ Together /\ Apart /\ Complete /\ Counted /\ Refuses
=============================================================================
