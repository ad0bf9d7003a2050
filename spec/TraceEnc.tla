------------------------------ MODULE TraceEnc ------------------------------
EXTENDS Encodings, TLC, Json, IOUtils
VARIABLES ti, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
Log == Traces[ti].ev
E == Log[l]
Match == /\ E.op = "find"
         /\ E.got = Found(Flat(E.te), Flat(E.ce))
         /\ E.chunked = HasChunked(Flat(E.te))
TInit == ti \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(Log) /\ Match /\ l' = l + 1 /\ UNCHANGED ti
         \/ l > Len(Log) /\ UNCHANGED <<ti, l>>
=============================================================================
