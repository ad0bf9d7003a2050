------------------------------ MODULE TraceBuf ------------------------------
EXTENDS BufWin, TLC, Json, IOUtils
VARIABLES ti, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
Log == Traces[ti].ev
E == Log[l]
Match == CASE E.op = "new"   -> New(E.b, E.n)
           [] E.op = "adv"   -> Advance(E.b, E.n, E.r)
           [] E.op = "split" -> Split(E.b, E.j, E.n, E.r)
           [] E.op = "take"  -> Take(E.b, E.n, E.r, E.got)
           [] E.op = "into"  -> Into(E.b, E.got)
           [] E.op = "drop"  -> Drop(E.b)
           [] OTHER          -> FALSE /\ UNCHANGED win
Range(s) == {s[i] : i \in 1..Len(s)}
TInit == Init /\ ti \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(Log) /\ Match /\ Range(E.obs) = Obs' /\ ev' = E /\ l' = l + 1 /\ UNCHANGED ti
         \/ l > Len(Log) /\ UNCHANGED <<win, ev, ti, l>>
TView == <<ti, l, win>>
=============================================================================
