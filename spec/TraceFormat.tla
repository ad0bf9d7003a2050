---------------------------- MODULE TraceFormat -----------------------------
EXTENDS BarcFormat, TLC, Json, IOUtils
VARIABLES ti, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
Log == Traces[ti].ev
E == Log[l]
Match == CASE E.op = "written" -> Written(E.f, E.r, E.z, E.dok, E.dec)
           [] E.op = "read"    -> ReadBack(E.r, E)
           [] E.op = "end"     -> E.k = "none"
           [] E.op = "part"    -> PartWritten(E)
           [] OTHER            -> FALSE
TInit == ti \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(Log) /\ Match = TRUE /\ l' = l + 1 /\ UNCHANGED ti
         \/ l > Len(Log) /\ UNCHANGED <<ti, l>>
=============================================================================
