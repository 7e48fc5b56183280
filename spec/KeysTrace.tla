----------------------------- MODULE KeysTrace ------------------------------
(* The documented keys and values of input files and the verdict on an input.  *)
(* keys.json: labels, kind of default, default, state, whether it is a map;     *)
(* enums.json: the words accepted for each enumeration.                         *)
EXTENDS TraceLib, Config
VARIABLES i, seen
vars == <<i, seen>>
E == Trace[i]
Keys == JsonDeserialize(IOEnv.KEYS)
Enums == JsonDeserialize(IOEnv.ENUMS)
Range(s) == {s[k] : k \in DOMAIN s}
KeySet == Range(Keys)
EnumSet == Range(Enums)
ByLabels == [l \in {k.labels : k \in KeySet} |-> CHOOSE k \in KeySet : k.labels = l]
Maps == {k.labels : k \in {x \in KeySet : x.map}}
S(s) == {<<s[k][1], s[k][2]>> : k \in DOMAIN s}
\* the key an entry belongs to: keys given as maps swallow what is below them
Owner(p) == IF \E m \in Maps : Pre(m, p) THEN CHOOSE m \in Maps : Pre(m, p) ELSE p
State(p) == IF Owner(p) \in DOMAIN ByLabels THEN ByLabels[Owner(p)].state ELSE "unknown"
Join(l) == LET f[n \in 1..Len(l)] == IF n = 1 THEN l[1] ELSE f[n - 1] \o ": " \o l[n] IN f[Len(l)]
Verdict(P) == IF \E p \in P : State(p) \in {"unknown", "removed"} THEN "Invalid"
              ELSE IF \E p \in P : State(p) = "deprecated" THEN "Deprecated" ELSE "Valid"
Validate == /\ E.op = "validate" /\ UNCHANGED seen
            /\ S(E.tree) = S(E.given)
            /\ LET P == {x[1] : x \in S(E.given)}
                   bad == {p \in P : State(p) # "valid"}
               IN IF E.full THEN /\ E.is = Verdict(P)
                                 /\ Range(E.named) = {Join(Owner(p)) : p \in bad}
                  ELSE IF bad = {} THEN E.is = "Valid" /\ E.named = <<>>
                  ELSE \E p \in bad : E.is = Verdict({p}) /\ Join(Owner(p)) \in Range(E.named)
\* a whole run: an invalid input is refused and nothing is touched, one with keys that nobody takes ends before the first event
Program == /\ E.op = "program" /\ UNCHANGED seen
           /\ LET P == {x[1] : x \in S(E.given)}
                  bad == {p \in P : State(p) # "valid"}
              IN IF Verdict(P) = "Invalid" THEN E.rc # 0 /\ E.before = E.after /\ \A p \in bad : Join(Owner(p)) \in Range(E.named)
                 ELSE IF E.foreign THEN E.rc # 0 /\ E.events = 0
                 ELSE E.rc = 0 /\ E.events = E.wanted
Key == /\ E.op = "key" /\ seen' = seen \cup {E.labels}
       /\ E.labels \notin seen
       /\ (E.labels \in DOMAIN ByLabels =>
             LET k == ByLabels[E.labels]
             IN k.kind = E.kind /\ k.def = E.def /\ k.state = E.state /\ k.map = E.map /\ k.probe = E.probe)
\* every documented key has been shown
Done == E.op = "keys" /\ UNCHANGED seen /\ DOMAIN ByLabels \subseteq seen
Enum == /\ E.op = "enum" /\ UNCHANGED seen
        /\ LET m == {x \in EnumSet : x.type = E.type /\ x.text = E.text}
           IN IF m = {} THEN E.res # "ok" ELSE E.res = "ok" /\ E.name = (CHOOSE x \in m : TRUE).name /\ E.back = "ok"
\* lists of words: All stands for all of them and ends the list
Bits == /\ E.op = "bits" /\ UNCHANGED seen
        /\ LET first(w) == LET ks == {k \in DOMAIN E.in : E.in[k] = w} IN IF ks = {} THEN 1000 ELSE CHOOSE k \in ks : \A j \in ks : k <= j
               all == first("All") < 1000
               wrong == first("Wrong") < 1000
           IN IF wrong /\ ~(all /\ first("All") < first("Wrong")) THEN E.res = "type"
              ELSE \/ wrong /\ E.res = "type"
                   \/ E.res = "ok" /\ E.back = "ok" /\ Len(E.out) = Cardinality(Range(E.out))
                      /\ Range(E.out) = (IF all THEN Range(E.all) ELSE Range(E.in))
Init == i = 1 /\ seen = {}
Next == /\ i <= Len(Trace) /\ i' = i + 1 /\ (Validate \/ Program \/ Key \/ Done \/ Enum \/ Bits)
Spec == Init /\ [][Next]_vars
=============================================================================
