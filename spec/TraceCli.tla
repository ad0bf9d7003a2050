------------------------------ MODULE TraceCli ------------------------------
EXTENDS Cli, TLC, Json, IOUtils
VARIABLES ti, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
T == Traces[ti]
Log == T.ev
E == Log[l]
Match == CASE E.op = "cat" -> CatOk(T.files, T.sel, T.parts, E)
           [] E.op = "cp" -> CpOk(T.files, T.sel, T.old, T.z, T.same, T.full, E)
           [] OTHER -> FALSE
TInit == ti \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(Log) /\ Match /\ l' = l + 1 /\ UNCHANGED ti
         \/ l > Len(Log) /\ UNCHANGED <<ti, l>>
=============================================================================
