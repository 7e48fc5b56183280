----------------------------- MODULE OutputTrace -----------------------------
(* Blocks of a particle output in file order against the requested times       *)
(* (ticks of one microsecond-like unit; times of one run fit in 32 bit).       *)
EXTENDS TraceLib, FiniteSets
VARIABLES i, run, ev, ens, k, phase
vars == <<i, run, ev, ens, k, phase>>
E == Trace[i]
\* k-th requested time in the open interval (start, end)
Range(s) == {s[j] : j \in DOMAIN s}
CeilDiv(a, b) == -((-a) \div b)
\* first multiple after the start, number of them before the end
First(r, s) == IF s % r.d = 0 THEN (s \div r.d) + 1 ELSE CeilDiv(s, r.d)
CountI(r, s, e) == LET n == CeilDiv(e, r.d) - First(r, s) IN IF n < 0 THEN 0 ELSE n
Eligible(r, s, e) == SelectSeq(r.times, LAMBDA t : t > s /\ t < e /\ t >= r.eq)
Skip(r, s) == IF r.eq <= s THEN 0 ELSE LET n == CeilDiv(r.eq, r.d) - First(r, s) IN IF n < 0 THEN 0 ELSE n
Count(r, s, e) == IF r.kind = "interval" THEN LET n == CountI(r, s, e) - Skip(r, s) IN IF n < 0 THEN 0 ELSE n ELSE Len(Eligible(r, s, e))
Nth(r, s, e, j) == IF r.kind = "interval" THEN (First(r, s) + Skip(r, s) + j - 1) * r.d ELSE Eligible(r, s, e)[j]
Start(n) == run.starts[n + 1]
Mid(n) == IF run.mid THEN Count(run, Start(n), run.end) ELSE 0
After(n, kk) == IF kk < Mid(n) THEN "mid" ELSE IF run.final THEN "end" ELSE "close"
\* interval runs round a time that is not a whole number of ticks
\* times in text have fewer digits
Near(a, b) == a - b <= run.tol /\ b - a <= run.tol
Due(t) == IF phase = "start" THEN Near(t, Start(ev)) ELSE IF phase = "end" THEN Near(t, run.end)
          ELSE LET x == Nth(run, Start(ev), run.end, k + 1) IN Near(t, x)
Times == Range(E.t)
Block == /\ E.op = "block" /\ phase \in {"start", "mid", "end"}
         /\ E.ev = ev /\ E.ens = ens /\ E.kind = (IF phase = "start" THEN "in" ELSE "out")
         /\ \A t \in Times : Due(t)
         /\ IF ens < run.nens - 1 /\ phase # "end"
            THEN ens' = ens + 1 /\ UNCHANGED <<k, phase>>
            ELSE IF phase = "start" THEN ens' = 0 /\ k' = 0 /\ phase' = (IF run.start2end THEN "close" ELSE After(ev, 0))
            ELSE IF phase = "mid" THEN ens' = 0 /\ k' = k + 1 /\ phase' = After(ev, k + 1)
            ELSE UNCHANGED <<ens, k>> /\ phase' = "close"
         /\ UNCHANGED <<run, ev>>
\* the line that closes an event of an ensemble
Close == /\ E.op = "close" /\ phase = "close" /\ E.ev = ev /\ E.ens = ens
         /\ IF ens < run.nens - 1 THEN ens' = ens + 1 /\ phase' = (IF run.final THEN "end" ELSE "close") /\ UNCHANGED <<ev, k>>
            ELSE ens' = 0 /\ ev' = ev + 1 /\ k' = 0
                 /\ phase' = (IF ev + 1 >= run.nev THEN "done" ELSE IF run.first THEN "start" ELSE After(ev + 1, 0))
         /\ UNCHANGED run
Begin == /\ E.op = "run" /\ phase = "done" /\ run' = E /\ ev' = 0 /\ ens' = 0 /\ k' = 0
         /\ phase' = (IF E.first THEN "start" ELSE LET c == IF E.mid THEN Count(E, E.starts[1], E.end) ELSE 0
                                                     IN IF c > 0 THEN "mid" ELSE IF E.final THEN "end" ELSE "close")
Stop == E.op = "eof" /\ phase = "done" /\ UNCHANGED <<run, ev, ens, k, phase>>
Init == i = 1 /\ run = [nens |-> 0] /\ ev = 0 /\ ens = 0 /\ k = 0 /\ phase = "done"
Next == i <= Len(Trace) /\ i' = i + 1 /\ (Block \/ Close \/ Begin \/ Stop)
Spec == Init /\ [][Next]_vars
=============================================================================
