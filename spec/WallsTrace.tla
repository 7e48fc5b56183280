----------------------------- MODULE WallsTrace -----------------------------
(* Wall crossings found and performed by the real code.  Units 1e-6 fm.         *)
EXTENDS TraceLib
VARIABLES i
E == Trace[i]
Tol == 5
Abs(a) == IF a < 0 THEN -a ELSE a
Near(a, b) == Abs(a - b) <= Tol
\* v (1e-6) times dt (1e-6 fm) without leaving 32 bit
Path(v, dt) == LET a == Abs(v)  d == Abs(dt)
                   vh == a \div 1000  vl == a % 1000  dh == d \div 10000  dl == d % 10000
                   m == vh * dh * 10 + (vh * dl) \div 1000 + (vl * dh) \div 100 + (vl * dl) \div 1000000
               IN IF (v < 0) = (dt < 0) THEN m ELSE -m
At(x, v, dt) == [c \in 1..3 |-> x[c] + Path(v[c], dt)]
Inside(x, L, tol) == \A c \in 1..3 : x[c] >= -tol /\ x[c] <= L + tol
\* a direction in which the wall is reached: at the wall and moving outwards
Wall(x, v, L, c, tol) == (v[c] > 0 /\ Abs(x[c] - L) <= tol) \/ (v[c] < 0 /\ Abs(x[c]) <= tol)
TolOf(dt) == Tol + dt \div 200000
\* ---- search for the crossing of one particle within a time
Search == /\ E.op = "search"
          /\ IF E.found = 0 THEN \* no wall is reached within the time
                  LET y == At(E.x, E.v, E.max) IN Inside(y, E.L, TolOf(E.max))
             ELSE /\ E.found = 1 /\ E.t >= -1 /\ E.t < E.max + 1
                  /\ LET y == At(E.x, E.v, E.t) IN
                       /\ Inside(y, E.L, TolOf(E.t))                       \* not later than the first wall
                       /\ \E c \in 1..3 : /\ Wall(y, E.v, E.L, c, TolOf(E.t))  \* and not earlier
                                          /\ Near(E.y[c], IF E.v[c] > 0 THEN 0 ELSE E.L)
                                          /\ \A d \in 1..3 : d # c => Abs(E.y[d] - y[d]) <= TolOf(E.t)
                  /\ Near(E.yt, E.xt + E.t)
                  /\ E.same                                             \* all other attributes
\* ---- particles put back at the beginning of an event
Wrap(a, L) == a % L
Impose == /\ E.op = "impose" /\ Len(E.before) = Len(E.after)
          /\ \A k \in DOMAIN E.before : /\ \A c \in 1..3 : Near(E.after[k][c], Wrap(E.before[k][c], E.L)) \/ Near(Abs(E.after[k][c] - Wrap(E.before[k][c], E.L)), E.L)
                                        /\ Inside(E.after[k], E.L, 1)
          /\ E.same
          /\ E.n = Len(SelectSeq(E.before, LAMBDA x : ~ \A c \in 1..3 : x[c] >= 0 /\ x[c] < E.L))
          /\ E.reported = E.n
\* ---- a stretch of free motion in a run; it ends at a wall or with something else
Fly == /\ E.op = "fly"
       /\ Inside(E.x, E.L, Tol)
       /\ LET y == At(E.x, E.v, E.dt) IN
            /\ E.dt >= 0
            /\ Inside(y, E.L, TolOf(E.dt))
            /\ (E.wall => \E c \in 1..3 : Wall(y, E.v, E.L, c, TolOf(E.dt))
                             /\ Near(E.y[c], IF E.v[c] > 0 THEN 0 ELSE E.L)
                             /\ \A d \in 1..3 : d # c => Abs(E.y[d] - y[d]) <= TolOf(E.dt))
            /\ (~E.wall => \A d \in 1..3 : Abs(E.y[d] - y[d]) <= TolOf(E.dt))
       /\ E.same
Init == i = 1
Next == i <= Len(Trace) /\ i' = i + 1 /\ (Search \/ Impose \/ Fly)
Spec == Init /\ [][Next]_i
=============================================================================
