----------------------------- MODULE TraceAsync -----------------------------
EXTENDS Async, TLC, Json, IOUtils
VARIABLES ti, l
FocusE == IOEnv.FOCUS
Traces == ndJsonDeserialize(IOEnv.TRACE)
Log == Traces[ti].ev
E == Log[l]
TInit == /\ ti \in 1..Len(Traces) /\ l = 1 /\ AInit
         /\ cfg = [p |-> Traces[ti].p, c |-> Traces[ti].c, item |-> Traces[ti].item, bfs |-> Traces[ti].bfs]
TNext == \/ l <= Len(Log) /\ OK(E) /\ Post(E) /\ l' = l + 1 /\ UNCHANGED ti
         \/ l > Len(Log) /\ UNCHANGED <<cfg, task, held, closed, woke, ti, l>>
=============================================================================
