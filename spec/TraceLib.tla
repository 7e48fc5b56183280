------------------------------ MODULE TraceLib ------------------------------
(* Reading of recorded traces: every line of the file $TRACE is one event.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Has(r, f) == f \in DOMAIN r
\* POSTCONDITION: the whole trace has been accepted
Accepted == LET d == TLCGet("stats").diameter - 1
            IN PrintT(<<"REACHED", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
