---------------------------- MODULE TraceBuilds -----------------------------
EXTENDS Builds, TLC, Json, IOUtils
VARIABLES ti, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
Log == Traces[ti].ev
E == Log[l]
Act ==
  CASE E.op = "make"  -> Alike(Make(E.x, E.v))
    [] E.op = "same"  -> Alike(Same(E.x))
    [] E.op = "move"  -> Alike(Move(E.x, E.y))
    [] E.op = "join"  -> Alike(Join(E.x, E.z, E.y))
    [] E.op = "enc"   -> Alike(Encode(E.x, E.y, E.z))
    [] E.op = "start" -> Alike(Start(E.d, E.x, E.y, E.n, E.qh, E.rh, E.ce))
    [] E.op = "swap"  -> Alike(Swap(E.d, E.x))
    [] E.op = "take"  -> Alike(Take(E.d, E.res, E.x))
    [] E.op = "dec"   -> BDecode(E.d, E.r)
    [] E.op = "write" -> BWrite(E.a, E.d, E.br, E.who)
    [] E.op = "read"  -> BRead(E.a, E.i, E.d, E.r)
    [] E.op = "cprec" -> BCopyRec(E.a, E.i, E.b, IF E.r = "ok" THEN E.br ELSE FALSE, E.r)
    [] E.op = "scan"  -> BScan(E.a, E.got, E.r, E.who)
    [] E.op = "cp"    -> Cp(E.a, E.b, E.z, E.r, E.br)
    [] E.op = "rec"   -> Record(E.a, E.r)
    [] E.op = "offer" -> Offer(E.l, E.br)
    [] E.op = "reset" -> BReset(E.a)
    [] E.op = "dropb" -> Alike(DropBody(E.x))
    [] E.op = "dropd" -> Alike(DropDlg(E.d))
    [] OTHER -> FALSE /\ Stays
TInit == ti \in 1..Len(Traces) /\ BInit(Traces[ti].br) /\ l = 1
TNext == \/ l <= Len(Log) /\ E.ok /\ Act /\ body' = E.body /\ dlg' = E.dlg
            /\ l' = l + 1 /\ UNCHANGED ti
         \/ l > Len(Log) /\ UNCHANGED <<body, dlg, arch, code, br, ti, l>>
TView == <<ti, l>>
=============================================================================
