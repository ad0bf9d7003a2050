--------------------------- MODULE TraceCompress ----------------------------
EXTENDS Compress, TLC, Json, IOUtils
VARIABLES ti, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
Log == Traces[ti].ev
E == Log[l]
Match == CASE E.op = "store"  -> Stored(E.r, E.z, E.mode, E.api, E.same)
           [] E.op = "levels" -> Levels(E.k, E.n, E.s, E.d, E.r)
           [] OTHER           -> FALSE
TInit == ti \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(Log) /\ Match /\ l' = l + 1 /\ UNCHANGED ti
         \/ l > Len(Log) /\ UNCHANGED <<ti, l>>
=============================================================================
