---------------------------- MODULE TraceDecode -----------------------------
EXTENDS Decode, TLC, Json, IOUtils
VARIABLES ti, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
Log == Traces[ti].ev
E == Log[l]
TInit == ti \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(Log) /\ E.op = "dec" /\ Allowed([Traces[ti].d EXCEPT !.how = E.how, !.ram = E.ram], E) /\ l' = l + 1 /\ UNCHANGED ti
         \/ l > Len(Log) /\ UNCHANGED <<ti, l>>
=============================================================================
