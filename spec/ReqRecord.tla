------------------------------ MODULE ReqRecord -----------------------------
(***************************************************************************)
(* Recording a request q (method m, url u, headers hv, body v): the record  *)
(* and the request to be sent, as built and as seen by the server, are views *)
(* of the same thing.  A request with any invalid part is refused.           *)
(***************************************************************************)
EXTENDS Integers, Sequences
Valid(q) == q.m >= 0 /\ q.u >= 0 /\ q.h # "bad"
View(q) == [m |-> q.m, u |-> q.u, h |-> q.hv, b |-> q.v]
\* As seen in the request object, where the body is not available
Built(q) == [m |-> q.m, u |-> q.u, h |-> q.hv]
Recorded(q, e) ==
  IF ~Valid(q) THEN e.r = "refused"
  ELSE /\ e.r \in {"ok", "err"} /\ e.rec = View(q) /\ e.out = Built(q)
       /\ e.r = "ok" => \/ e.srv = View(q)
                        \* Bodies of GET and HEAD are left out by the HTTP library
                        \/ q.m \in {0, 3} /\ e.srv = [View(q) EXCEPT !.b = <<>>]
=============================================================================
