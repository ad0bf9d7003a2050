--------------------------- MODULE TraceReadFault ---------------------------
EXTENDS ReadFault, TLC, Json, IOUtils
VARIABLES ti, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
T == Traces[ti]
E == T.ev[l]
Match == CASE E.op = "reader" -> NewReader(E.flt, E.ok)
           [] E.op = "seek"   -> Seek(E.flt, E.ok, E.k)
           [] E.op = "read"   -> Read(T.recs, E.flt, E.k, E.c)
           [] E.op = "bodies" -> Bodies(T.bods, E.flt, E.i, E.k, E.c)
           [] OTHER           -> FALSE /\ UNCHANGED pos
TInit == ti \in 1..Len(Traces) /\ l = 1 /\ Init(Unknown)
TNext == \/ l <= Len(T.ev) /\ Match /\ l' = l + 1 /\ UNCHANGED ti
         \/ l > Len(T.ev) /\ UNCHANGED <<pos, ti, l>>
=============================================================================
