------------------------------ MODULE TraceTune -----------------------------
EXTENDS Tune, TLC, Json, IOUtils
VARIABLES ti, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
Log == Traces[ti].ev
E == Log[l]
Match == CASE E.op = "setb"   -> SetB(E.k, E.v, E.r)
           [] E.op = "setf"   -> SetF(E.k, E.v, E.r)
           [] E.op = "finb"   -> FinishB(E.r, E.b)
           [] E.op = "finf"   -> FinishF(E.r, E.f, E.b)
           [] E.op = "image"  -> Image(E.i)
           [] E.op = "look"   -> Look(E.i, E.b, E.f)
           [] E.op = "resetb" -> ResetB
           [] E.op = "resetf" -> ResetF
           [] OTHER           -> FALSE /\ UNCHANGED <<b, f, img, snaps>>
TInit == Init /\ ti \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(Log) /\ Match /\ ev' = E /\ l' = l + 1 /\ UNCHANGED ti
         \/ l > Len(Log) /\ UNCHANGED <<b, f, img, snaps, ev, ti, l>>
TView == <<ti, l>>
=============================================================================
