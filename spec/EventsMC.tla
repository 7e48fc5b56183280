------------------------------ MODULE EventsMC ------------------------------
(* All runs: events of parallel ensembles that interact or do not.             *)
EXTENDS Events, TLC
CONSTANTS MaxN, MaxEns, MaxCap
VARIABLES c, nens, ev, hist, open
vars == <<c, nens, ev, hist, open>>
Counts == {[kind |-> "fixed", n |-> n, max |-> 0] : n \in 0..MaxN} \cup {[kind |-> "minimum", n |-> n, max |-> m] : n \in 0..MaxN, m \in 0..MaxCap}
RECURSIVE Sum(_)
Sum(h) == IF h = <<>> THEN 0 ELSE Cardinality(Head(h)) + Sum(Tail(h))
Init == c \in Counts /\ nens \in 1..MaxEns /\ ev = 0 /\ hist = <<>> /\ open = FALSE
Start == ~open /\ ~Finished(c, nens, ev, Sum(hist)) /\ open' = TRUE /\ UNCHANGED <<c, nens, ev, hist>>
\* the ensembles with an interaction
End == open /\ \E s \in SUBSET (1..nens) : hist' = Append(hist, s) /\ ev' = ev + 1 /\ open' = FALSE /\ UNCHANGED <<c, nens>>
Next == Start \/ End
Spec == Init /\ [][Next]_vars
Done == ~open /\ Finished(c, nens, ev, Sum(hist))
Exact == (Done /\ c.kind = "fixed") => Len(hist) = c.n
Enough == (Done /\ c.kind = "minimum") => Sum(hist) >= c.n \/ (Len(hist) * nens >= c.max /\ (Len(hist) = 0 \/ (Len(hist) - 1) * nens < c.max))
\* no event more than needed
NotTooMany == (c.kind = "minimum" /\ hist # <<>>) => LET h == SubSeq(hist, 1, Len(hist) - 1) IN Sum(h) < c.n /\ Len(h) * nens < c.max
Numbered == ev = Len(hist)
=============================================================================
