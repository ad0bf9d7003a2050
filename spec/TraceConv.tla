----------------------------- MODULE TraceConv ------------------------------
EXTENDS DialogConv, TLC, Json, IOUtils
VARIABLES ti, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
Log == Traces[ti].ev
E == Log[l]
Match == CASE E.op = "dialog" -> E.ok /\ Same(E.d, E.got) /\ MetaFor(E.d, E.meta)
           [] E.op = "record" -> Convert(E.f, E.res) /\ (E.res = "ok" => E.vals)
           [] OTHER           -> FALSE
TInit == ti \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(Log) /\ Match /\ l' = l + 1 /\ UNCHANGED ti
         \/ l > Len(Log) /\ UNCHANGED <<ti, l>>
=============================================================================
