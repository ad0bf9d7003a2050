------------------------------ MODULE TraceBody -----------------------------
(* Is each recorded execution a behaviour of Body? *)
EXTENDS Body, TLC, Json, IOUtils
VARIABLES ti, l
TFile == <<101, 102, 103, 104, 105, 106>>
Traces == ndJsonDeserialize(IOEnv.TRACE)
Log == Traces[ti].ev
E == Log[l]

Match ==
  CASE E.op = "sink"    -> NewSink(E.i, E.how, E.ok, E.flt)
    [] E.op \in {"push", "write", "save"} -> Put(E.i, E.op, E.cells, E.ok, E.flt)
    [] E.op = "back"    -> WriteBack(E.i, E.dir, E.ok, E.flt)
    [] E.op = "prep"    -> Prepare(E.i, E.ok, E.flt)
    [] E.op = "slice"   -> FromSlice(E.i, E.cells)
    [] E.op = "file"    -> FromFile(E.i, E.n)
    [] E.op = "fslice"  -> FromReadSlice(E.i, E.a, E.b)
    [] E.op = "clone"   -> Clone(E.i, E.j)
    [] E.op = "map"     -> MemMap(E.i, E.ok, E.flt)
    [] E.op = "gather"  -> Gather(E.i)
    [] E.op = "out"     -> WriteTo(E.i, E.cap, E.ok, E.flt, E.got)
    [] E.op = "expl"    -> Explode(E.i)
    [] E.op = "reader"  -> NewReader(E.i, E.r)
    [] E.op = "read"    -> Read(E.r, E.n, E.ok, E.flt, E.got)
    [] E.op = "readall" -> ReadAll(E.r, E.ok, E.flt, E.got)
    [] E.op = "drop"    -> Drop(E.i)
    [] OTHER            -> FALSE /\ UNCHANGED <<obj, ev>>

TInit == Init /\ ti \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(Log) /\ Match /\ ev' = E /\ l' = l + 1 /\ UNCHANGED ti
         \/ l > Len(Log) /\ UNCHANGED <<obj, ev, ti, l>>
TView == <<ti, l, obj>>
=============================================================================
