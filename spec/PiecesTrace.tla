---------------------------- MODULE PiecesTrace ----------------------------
(* Recorded calls of the library interface against the specification.  The     *)
(* interactions and outputs that the files gained during a call lie between    *)
(* its record ("evolve", "finals") and the record of its return ("back").      *)
EXTENDS Ledger, Pieces
VARIABLES clock, w, P, call, phase, lost
pvars == <<clock, w, P, call, phase, lost>>
Never == 2000000000
N(s) == Len(s)
\* the same species, momentum, and position once moved to the time of the clock
Same(a, p) == /\ a.type = p.type /\ \A c \in 1..4 : Near(a.p[c], p.p[c], 2)
              /\ \A c \in 1..3 : Near(a.x[c + 1] + Path(a.v[c], clock - a.x[1]), p.x[c + 1] + Path(p.v[c], clock - p.x[1]), 30)
Hits(k) == {d \in DOMAIN live[1] : Same(call.away[k], live[1][d])}
Found == Matched(N(call.away), Hits)
Doubled == Twice(N(call.away), Hits)
\* a call comes with additions, then removals, then the evolution; a faulty one stops where it is found to be so
Forbidden == N(live) > 1 /\ (call.add # <<>> \/ call.away # <<>>)
AfterAdd == IF Doubled THEN "faulty" ELSE IF Found # {} THEN "away" ELSE IF call.T > P.end THEN "late" ELSE "run"
Asked(p) == IF p.req.kind = "interval" THEN p ELSE [p EXCEPT !.req = [kind |-> "list", s |-> {p.req.s[k] : k \in DOMAIN p.req.s}]]
Event == /\ Start /\ clock' = E.t0 /\ w' = E.t0 /\ P' = Asked(E.par) /\ phase' = "client" /\ call' = call /\ lost' = -1
         /\ \A e \in 1..E.nens : /\ E.ens[e] = E.ens3[e] /\ \A k \in DOMAIN E.ens[e] : E.ens[e][k].x[1] = E.t0
Evolve == /\ E.op = "evolve" /\ phase = "client" /\ call' = E /\ phase' = "enter" /\ lost' = -1
          /\ UNCHANGED <<live, used, n, last, crit, box, tot, therm, clock, w, P>>
\* where the call stands (no separate step for what takes none)
Now == IF phase # "enter" THEN phase
       ELSE IF Forbidden THEN "forbidden" ELSE IF call.add # <<>> THEN "add" ELSE AfterAdd
Given(a, o) == /\ o.type = a.type /\ \A c \in 2..4 : Near(o.p[c], a.p[c], 2) /\ Near(o.p[1], a.p[1], 3)
               /\ o.x[1] = clock /\ \A c \in 1..3 : Near(o.x[c + 1], a.x[c + 1] + Path(a.v[c], clock - a.x[1]), 10 + Abs(clock - a.x[1]) \div 100000)
               /\ o.f = a.x[1] /\ o.sc = 1000000 /\ o.q = a.q /\ o.b = a.b /\ o.s = a.s
Add == /\ E.op = "int" /\ Now = "add" /\ E.kind = Free /\ E.in = <<>> /\ E.t = clock
       /\ NewOnes(used[1], <<>>, E.out)
       /\ Len(E.out) = Len(call.add) /\ \A k \in DOMAIN E.out : Given(call.add[k], E.out[k]) /\ History(Free, n + 1, clock, <<>>, E.out[k], k)
       /\ LET new == ById(E.out) IN live' = <<[d \in DOMAIN live[1] \cup DOMAIN new |-> IF d \in DOMAIN new THEN new[d] ELSE live[1][d]]>>
       /\ used' = <<used[1] \cup {E.out[k].id : k \in DOMAIN E.out}>>
       /\ n' = n + 1 /\ phase' = "added" /\ UNCHANGED <<last, crit, box, tot, therm, clock, w, P, call, lost>>
Now2 == IF phase = "added" THEN AfterAdd ELSE Now
Away == /\ E.op = "int" /\ Now2 = "away" /\ E.kind = Free /\ E.out = <<>> /\ E.t = clock
        /\ {E.in[k].id : k \in DOMAIN E.in} = Found /\ Interact /\ lost' = Missing(N(call.away), Hits)
        /\ phase' = (IF call.T > P.end THEN "late" ELSE "run") /\ UNCHANGED <<clock, w, P, call>>
Ordinary == /\ E.op = "int" /\ E.kind # Free /\ Now2 \in {"run", "finals"} /\ E.t >= clock /\ Interact
            /\ phase' = Now2 /\ UNCHANGED <<clock, w, P, call, lost>>
            /\ (Now2 = "finals" => E.kind = Decay /\ E.t = clock)
Shown == /\ E.op = "out" /\ Now2 = "run" /\ Output /\ E.t >= clock /\ E.t = NextAsked(P.req, w, Never) /\ E.t < P.end
         /\ w' = (IF E.e = N(live) THEN E.t ELSE w) /\ phase' = "run" /\ UNCHANGED <<clock, P, call, lost>>
Outcome == CASE Now2 \in {"run", "finals"} -> "ok" [] Now2 \in {"faulty", "late"} -> "logic" [] OTHER -> "runtime"
\* a time that equals a boundary may be found to lie a little behind it
Ahead(c) == LET b == Boundary(P.start, P.end, P.dt, clock, call.T)
            IN c = b \/ (c = Boundary(P.start, P.end, P.dt, clock, b + 1) /\ b = call.T)
Back == /\ E.op = "back" /\ Now2 \in {"run", "faulty", "late", "forbidden", "finals"} /\ E.res = Outcome
        /\ IF Now2 = "run" THEN clock' = E.clock /\ Ahead(E.clock) ELSE clock' = clock
        /\ (Now2 = "run" => NextAsked(P.req, w, Never) >= clock' \/ NextAsked(P.req, w, Never) >= P.end)
        /\ (Now2 = "run" => w < clock' \/ w = P.start)
        \* entries that match nothing are reported
        /\ (E.heard => E.missed = IF call.op # "evolve" \/ Now2 \in {"faulty", "forbidden"} THEN 0 ELSE IF lost >= 0 THEN lost ELSE N(call.away))
        /\ \A e \in DOMAIN live : Content(e, E.ens[e], clock')
        /\ phase' = "client" /\ UNCHANGED <<live, used, n, last, crit, box, tot, therm, w, P, call, lost>>
Finals == /\ E.op = "finals" /\ phase = "client" /\ phase' = "finals" /\ call' = E
          /\ UNCHANGED <<live, used, n, last, crit, box, tot, therm, clock, w, P, lost>>
Final == /\ End /\ phase = "client" /\ E.t = clock /\ E.parts = E.ens /\ UNCHANGED pvars
\* the same event, driven differently
Equal == E.op = "equal" /\ E.a = E.b /\ UNCHANGED <<live, used, n, last, crit, box, tot, therm, clock, w, P, call, phase, lost>>
PInit == Init /\ clock = 0 /\ w = 0 /\ P = <<>> /\ call = <<>> /\ phase = "client" /\ lost = -1
PNext == i <= Len(Trace) /\ i' = i + 1 /\ (Event \/ Evolve \/ Add \/ Away \/ Ordinary \/ Shown \/ Back \/ Finals \/ Final \/ Equal)
PSpec == PInit /\ [][PNext]_<<vars, pvars>>
=============================================================================
