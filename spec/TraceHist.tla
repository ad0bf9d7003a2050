----------------------------- MODULE TraceHist ------------------------------
(* Is each recorded history one of ArcHist? *)
EXTENDS ArcHist, TLC, Json, IOUtils
VARIABLES ti, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
Log == Traces[ti].ev
E == Log[l]
Match ==
  CASE E.op = "acq"   -> Acq(E.t)
    [] E.op = "rel"   -> Rel(E.t)
    [] E.op = "begin" -> Begin(E.t, E.i)
    [] E.op = "end"   -> End(E.t, E.i, E.ok, E.off, E.flt # "none")
    [] E.op = "start" -> ScanStart(E.r)
    [] E.op = "done"  -> ScanDone(E.r, E.ids, E.offs, E.end)
    [] E.op = "seek"  -> SeekRead(E.i, E.got)
    [] E.op = "after" -> After(E.off, E.size, E.ok)
    [] OTHER          -> FALSE /\ UNCHANGED hist
TInit == HInit /\ ti \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(Log) /\ Match /\ l' = l + 1 /\ UNCHANGED ti
         \/ l > Len(Log) /\ UNCHANGED <<hist, ti, l>>
TView == <<ti, l>>
=============================================================================
