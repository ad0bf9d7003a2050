--------------------------- MODULE TraceReadFrom ----------------------------
EXTENDS ReadFrom, TLC, Json, IOUtils
VARIABLES ti, l
FocusEnv == {IOEnv.FOCUS}
Traces == ndJsonDeserialize(IOEnv.TRACE)
Log == Traces[ti].ev
E == Log[l]
Match ==
  CASE E.op = "src"     -> Src(E.req, E.got, E.how)
    [] E.op = "tmp"     -> Tmp(E.ok)
    [] E.op = "wr"      -> Wr(E.req, E.n, E.how)
    [] E.op = "other"   -> Other(E.how)
    [] E.op = "ok"      -> ResOk(E.len, E.ram, E.same)
    [] E.op = "toolong" -> ResTooLong(E.len)
    [] E.op = "io"      -> ResIo
    [] E.op = "left"    -> Left(E.n)
    [] OTHER            -> FALSE /\ UNCHANGED <<fvars, ev>>
TInit == ti \in 1..Len(Traces) /\ l = 1 /\ Start(Traces[ti].cfg)
TNext == \/ l <= Len(Log) /\ Match /\ ev' = E /\ l' = l + 1 /\ UNCHANGED ti
         \/ l > Len(Log) /\ UNCHANGED <<fvars, ev, ti, l>>
\* A recorded execution always gets to a result
Complete == l > Len(Log) => done = "left"
TView == <<ti, l, fvars>>
=============================================================================
