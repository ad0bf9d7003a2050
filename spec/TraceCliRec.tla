------------------------------ MODULE TraceCliRec ------------------------------
EXTENDS CliRecord, TLC, Json, IOUtils
VARIABLES ti, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
T == Traces[ti]
Log == T.ev
E == Log[l]
Match == E.op = "record" /\ RecordOk(T.p, T.o, E)
TInit == ti \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(Log) /\ Match /\ l' = l + 1 /\ UNCHANGED ti
         \/ l > Len(Log) /\ UNCHANGED <<ti, l>>
=============================================================================
