----------------------------- MODULE TraceLife ------------------------------
EXTENDS Life, TLC, Json, IOUtils
VARIABLES ti, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
Log == Traces[ti].ev
E == Log[l]
C == Traces[ti].c
Full(v) == [k \in 1..Len(v) |-> <<v[k], 0, C>>]
Set(s) == {s[k] : k \in 1..Len(s)}
N == Set(E.new)
Act ==
  CASE E.op = "img"    -> Image(E.x, Full(E.v), N)
    [] E.op = "sink"   -> SinkOf(E.x, Full(E.v), N)
    [] E.op = "more"   -> More(E.x, Full(E.v), N)
    [] E.op = "wb"     -> Back(E.x, N)
    [] E.op = "view"   -> View(E.x, E.y, N)
    [] E.op = "dec"    -> Image(E.x, Full(E.v), N)
    [] E.op = "fail"   -> Nothing
    [] E.op = "prep"   -> Prepare(E.x, N)
    [] E.op = "clone"  -> Clone(E.x, E.y, N)
    [] E.op = "map"    -> Map(E.x, N)
    [] E.op = "expl"   -> Explode(E.x, N)
    [] E.op = "str"    -> Stream(E.x, N)
    [] E.op = "poll"   -> Poll(E.x, E.y, E.item, N)
    [] E.op = "arc"    -> Archive(E.x, N)
    [] E.op = "rdr"    -> Reader(E.x, E.y, N)
    [] E.op = "rec"    -> Record(E.x, E.y, Full(E.v), N)
    [] E.op = "body"   -> BodyOf(E.x, E.y, IF E.res THEN SubSeq(obj[E.x].v, 2, 3) ELSE SubSeq(obj[E.x].v, 1, 1), N)
    [] E.op = "remove" -> Remove
    [] E.op = "drop"   -> Drop(E.x)
    [] OTHER           -> FALSE /\ UNCHANGED <<obj, path>>
TInit == obj = [x \in Slots |-> None] /\ path = FALSE /\ ev = <<>> /\ ti \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(Log) /\ Act /\ E.ok /\ Look(obj', Set(E.open), Set(E.got))
            /\ l' = l + 1 /\ UNCHANGED <<ti, ev>>
         \/ l > Len(Log) /\ UNCHANGED <<obj, path, ev, ti, l>>
TView == <<ti, l>>
=============================================================================
