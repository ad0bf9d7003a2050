----------------------------- MODULE TraceFetch -----------------------------
EXTENDS Fetch, TLC, Json, IOUtils
VARIABLES ti, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
T == Traces[ti]
Log == T.ev
E == Log[l]
Match == /\ E.op = "fetch"
         /\ IF IOEnv.FOCUS = "C23" THEN Recorded(T.q, E) ELSE Fetched(T.q, T.p, T.t, E)
TInit == ti \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(Log) /\ Match /\ l' = l + 1 /\ UNCHANGED ti
         \/ l > Len(Log) /\ UNCHANGED <<ti, l>>
=============================================================================
