-------------------------------- MODULE Exch --------------------------------
(* Exchanges run at the same time by clients and a server in one runtime,   *)
(* sharing permits and pool threads.  Each sends a body; the server takes   *)
(* it in, and sends the same, or another, back.  Every exchange ends as if  *)
(* it were alone.                                                           *)
EXTENDS Integers, Sequences

\* q: request content q.v and its cell size c; server limit q.smax; answer q.w,
\* or the request's content if q.echo; client limit q.cmax; q.die, the server
\* gives up; q.quit, the client gives up at some point
Answer(q) == IF q.echo THEN q.v ELSE q.w
Fails(o, kinds) == o.r = "err" /\ o.kind \in kinds
Right(q, k, o) ==
  /\ o.r = "ok" /\ o.k = k /\ o.status = 200 /\ o.b = Answer(q) /\ o.sent = q.v
  /\ ~q.die /\ Len(q.v) * q.c <= q.smax /\ Len(Answer(q)) * q.c <= q.cmax
\* May the k-th exchange q end with outcome o?
Ends(q, k, o) ==
  IF q.quit /\ o.r = "quit" THEN TRUE
  ELSE IF q.die THEN Fails(o, {"http"})
  ELSE IF Len(q.v) * q.c > q.smax
       \* The server may answer, or close, before all was sent
       THEN IF o.r = "ok" THEN o.k = k /\ o.status = 413 /\ o.b = <<>> ELSE Fails(o, {"http"})
  ELSE IF Len(Answer(q)) * q.c > q.cmax THEN Fails(o, {"toolong", "cltoolong"})
  ELSE Right(q, k, o)

\* All together: nothing is lost, stuck or left over
All(qs, permits, e) ==
  /\ Len(e.out) = Len(qs)
  /\ \A k \in 1..Len(qs) : Ends(qs[k], k, e.out[k])
  /\ e.permits = permits
=============================================================================
