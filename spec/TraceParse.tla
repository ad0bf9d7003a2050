---------------------------- MODULE TraceParse ------------------------------
EXTENDS BarcParse, TLC, Json, IOUtils
VARIABLES ti, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
Log == Traces[ti].ev
E == Log[l]
Match == CASE E.op = "read" -> Allowed(Traces[ti].f, E)
           [] E.op = "far"  -> E.k \in {"none", "err"}
           [] E.op = "many" -> ManyNames(E.n, E)
           [] OTHER         -> FALSE
TInit == ti \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(Log) /\ Match /\ l' = l + 1 /\ UNCHANGED ti
         \/ l > Len(Log) /\ UNCHANGED <<ti, l>>
=============================================================================
