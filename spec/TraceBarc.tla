----------------------------- MODULE TraceBarc ------------------------------
(* Is each recorded execution a behaviour of Barc? *)
EXTENDS Barc, TLC, Json, IOUtils
VARIABLES ti, l
FocusEnv == {IOEnv.FOCUS}
Traces == ndJsonDeserialize(IOEnv.TRACE)
Log == Traces[ti].ev
E == Log[l]
TC(n) == n * Traces[ti].c
Match ==
  CASE E.op = "open"   -> Open(E.h)
    [] E.op = "write"  -> E.ok /\ Write(E.h, E.c, E.z, E.off, E.end, E.pre, E.mode)
    [] E.op = "reader" -> NewReader(E.h, E.r, E.ok)
    [] E.op = "seek"   -> E.ok /\ Seek(E.r, E.k, E.off)
    [] E.op = "read"   -> IF rd[E.r] = -1     \* position not specified
                          THEN UNCHANGED state /\ ev' = E
                          ELSE Read(E.r, E.x, E.mr, E.mb, E.k, E.c, E.off, E.q, E.s, E.tmp)
    [] E.op = "peek"   -> IF kept[E.x] = Nothing THEN UNCHANGED state /\ ev' = E
                          ELSE Peek(E.x, E.map, E.ok, E.c, E.q, E.s)
    [] E.op = "drop"   -> IF kept[E.x] = Nothing THEN UNCHANGED state /\ ev' = E ELSE Drop(E.x)
    [] E.op = "left"   -> E.n = 0 /\ UNCHANGED state /\ ev' = E
    [] OTHER           -> FALSE /\ UNCHANGED <<state, ev>>
TInit == Init /\ ti \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(Log) /\ Match /\ l' = l + 1 /\ UNCHANGED ti
         \/ l > Len(Log) /\ UNCHANGED <<state, ev, ti, l>>
TView == <<ti, l, state>>
=============================================================================
