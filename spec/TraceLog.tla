------------------------------ MODULE TraceLog ------------------------------
EXTENDS Log, TLC, Json, IOUtils
VARIABLES ti, l, n
Traces == ndJsonDeserialize(IOEnv.TRACE)
T == Traces[ti]
Log1 == T.ev
E == Log1[l]
\* Set up by the environment's level, where 0 and none leave it off
TestLevel == IF T.env <= 0 THEN -1 ELSE T.env - 1
Match ==
  CASE E.op = "setup" -> IF n = -1 THEN E.r = "ok" /\ n' = E.n ELSE E.r = "err" /\ n' = n
    [] E.op = "test" -> E.r = "true" /\ n' = IF n = -1 THEN TestLevel ELSE n
    [] E.op = "log" -> E.shown = (IF Visible(n, E.lvl, E.target) THEN 1 ELSE 0) /\ n' = n
    [] E.op = "par" -> E.shown = (IF Visible(n, E.lvl, E.target) THEN E.all ELSE 0) /\ n' = n
    \* The program's lines with a number of debug flags, as of those with all:
    [] E.op = "cli" -> /\ E.code = 0 /\ n' = n
                       /\ \A k \in 1..Len(E.lines) :
                            Visible(E.n, E.lines[k].lvl, IF E.lines[k].own THEN "barc" ELSE "x")
                       /\ \A k \in 1..Len(E.must) :
                            Visible(E.n, E.must[k].lvl, IF E.must[k].own THEN "barc" ELSE "x")
                              => \E j \in 1..Len(E.lines) : E.lines[j] = E.must[k]
    [] OTHER -> FALSE
TInit == ti \in 1..Len(Traces) /\ l = 1 /\ n = -1
TNext == \/ l <= Len(Log1) /\ Match /\ l' = l + 1 /\ UNCHANGED ti
         \/ l > Len(Log1) /\ UNCHANGED <<ti, l, n>>
=============================================================================
