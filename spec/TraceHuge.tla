----------------------------- MODULE TraceHuge ------------------------------
(* A trace has the case it is of. *)
EXTENDS Huge, TLC, Json, IOUtils
VARIABLES ti, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
Log == Traces[ti].ev
S == Traces[ti].of
E == Log[l]
Last == Len(S.offs)
RecShown(k) ==
  /\ E.k = "rec"
  /\ E.m = S.recs[k].m /\ E.qh = S.recs[k].qh /\ E.rh = S.recs[k].rh
  /\ Shown(S.recs[k].q, E.q) /\ Shown(S.recs[k].s, E.s)
Match ==
  CASE E.op = "made"  -> E.k = IF Less(S.lim, S.body.n) /\ S.how \in {"rf", "asink"} THEN "long" ELSE "ok"
    [] E.op = "image" -> Shown(S.body, E) /\ E.tell = S.body.n
    \* Archives: what is written where, ...
    [] E.op = "wrote" -> Focus \in {"C06", "C08"} => (E.k = "ok" /\ (S.offs # <<>> => E.at = S.offs[E.i]))
    [] E.op = "file"  -> Focus = "C30" => (/\ E.n = S.offs[Last]
                                           /\ Len(E.marks) = Len(S.pieces)
                                           /\ \A k \in 1..Len(S.pieces) : E.marks[k] = S.pieces[k].b)
    \* ... read in order, ...
    [] E.op = "next"  -> /\ Focus \in {"C06", "C30"} => RecShown(E.i)
                         /\ Focus = "C08" => (E.from = S.offs[E.i] /\ E.to = S.offs[E.i + 1])
    [] E.op = "end"   -> E.k = "none"
    \* ... and at the offset of each
    [] E.op = "seek"  -> Focus = "C08" => RecShown(E.i)
    [] OTHER -> FALSE
TInit == ti \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(Log) /\ Match = TRUE /\ l' = l + 1 /\ UNCHANGED ti
         \/ l > Len(Log) /\ UNCHANGED <<ti, l>>
=============================================================================
