---------------------------- MODULE TraceSystem -----------------------------
EXTENDS System, TLC, Json, IOUtils
VARIABLES ti, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
Log == Traces[ti].ev
E == Log[l]
Act ==
  CASE E.op = "make"  -> Make(E.x, E.v)
    [] E.op = "same"  -> Same(E.x)
    [] E.op = "move"  -> Move(E.x, E.y)
    [] E.op = "join"  -> Join(E.x, E.z, E.y)
    [] E.op = "enc"   -> Encode(E.x, E.y, E.z)
    [] E.op = "start" -> Start(E.d, E.x, E.y, E.n, E.qh, E.rh, E.ce)
    [] E.op = "swap"  -> Swap(E.d, E.x)
    [] E.op = "take"  -> Take(E.d, E.res, E.x)
    [] E.op = "dec"   -> Decode(E.d, E.r)
    [] E.op = "write" -> Write(E.a, E.d)
    [] E.op = "read"  -> Read(E.a, E.i, E.d)
    [] E.op = "cprec" -> CopyRec(E.a, E.i, E.b)
    [] E.op = "scan"  -> Scan(E.a, E.got)
    [] E.op = "reset" -> Reset(E.a)
    [] E.op = "dropb" -> DropBody(E.x)
    [] E.op = "dropd" -> DropDlg(E.d)
    [] OTHER -> FALSE /\ UNCHANGED <<body, dlg, arch>>
TInit == Init /\ ti \in 1..Len(Traces) /\ l = 1
\* After each step, all bodies and dialogs are as they should be
TNext == \/ l <= Len(Log) /\ E.ok /\ Act /\ body' = E.body /\ dlg' = E.dlg
            /\ l' = l + 1 /\ UNCHANGED ti
         \/ l > Len(Log) /\ UNCHANGED <<body, dlg, arch, ti, l>>
TView == <<ti, l>>
=============================================================================
