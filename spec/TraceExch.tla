----------------------------- MODULE TraceExch ------------------------------
EXTENDS Exch, TLC, Json, IOUtils
VARIABLES ti, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
T == Traces[ti]
Log == T.ev
E == Log[l]
Match == E.op = "all" /\ All(T.qs, T.permits, E)
TInit == ti \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(Log) /\ Match = TRUE /\ l' = l + 1 /\ UNCHANGED ti
         \/ l > Len(Log) /\ UNCHANGED <<ti, l>>
=============================================================================
