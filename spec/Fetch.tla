-------------------------------- MODULE Fetch -------------------------------
(***************************************************************************)
(* Fetching: what comes of a request q, given what the server does (p) and  *)
(* the settings (t).                                                        *)
(*                                                                         *)
(* p.fr: framing of the response body: stated length (cl), chunked, until   *)
(*       closed (close), or no body                                         *)
(* p.stop: ok; short: closed inside the body; reset: same, abruptly; nohead: *)
(*       closed inside or before the head; stallhead, stallbody: nothing     *)
(*       further is sent; drip: endless body; badlen: unreadable length      *)
(* p.slow: pause before the head, longer than the body timeout (head), or    *)
(*       before the body, longer than the response timeout (body)            *)
(* t.max, t.ram: limits; t.res, t.body: that timeout in milliseconds, if it  *)
(*       is set to be short; t.nodir: no temporary files can be created      *)
(***************************************************************************)
EXTENDS ReqRecord

NoBody(q, p) == q.m = 3 \/ p.status \in {204, 304} \/ p.fr = "none"
Cells(q, p) == IF NoBody(q, p) THEN <<>> ELSE p.v
Actual(q, p) == Len(Cells(q, p)) * p.c
Stated(p) == IF p.fr = "cl" THEN Len(p.v) * p.c ELSE 0
Most(a, b) == IF a > b THEN a ELSE b

\* The response a dialog holds
Response(q, p, d) ==
  /\ d.status = p.status /\ d.ver = p.ver /\ d.h = p.hv /\ d.fr = p.fr
  /\ d.b = Cells(q, p)
  /\ d.dec = IF p.fr = "chunked" THEN <<"Chunked">> ELSE <<>>
Placed(q, p, t, d) ==
  /\ Actual(q, p) > t.ram => ~d.mem
  /\ Most(Stated(p), Actual(q, p)) <= t.ram => d.mem

Disk(q, p, t) == Most(Stated(p), Actual(q, p)) > t.ram
Errs(q, p, t) ==
  LET long == p.fr # "cl" /\ Actual(q, p) > t.max
      cut  == {"http", "other"}
  IN CASE p.stop = "nohead" -> cut
       [] p.stop = "badlen" -> cut
       [] p.stop = "stallhead" -> {"restime"}
       \* Seen in the head, before any of the body
       [] p.fr = "cl" /\ Stated(p) > t.max -> {"cltoolong"}
       [] p.stop \in {"short", "reset"} -> cut \cup (IF long THEN {"toolong"} ELSE {}) 
       [] p.stop = "stallbody" -> {"bodytime"} \cup (IF long THEN {"toolong"} ELSE {})
                                  \cup (IF t.nodir THEN cut ELSE {})
       [] p.stop = "drip" -> {"bodytime", "toolong"} \cup (IF t.nodir THEN cut ELSE {})
       [] long -> {"toolong"} \cup (IF t.nodir THEN cut ELSE {})
       [] t.nodir /\ Actual(q, p) > t.ram -> cut
       \* No body follows, so there may be no need of the file
       [] t.nodir /\ Disk(q, p, t) -> cut \cup {"none"}
       [] OTHER -> {"none"}
Fetched(q, p, t, e) ==
  IF ~Valid(q) THEN e.r = "refused"
  ELSE IF e.r = "ok" THEN
    /\ "none" \in Errs(q, p, t)
    /\ e.dlg.q = View(q)
    /\ Response(q, p, e.dlg) /\ Placed(q, p, t, e.dlg)
  ELSE /\ e.r = "err" /\ e.kind \in Errs(q, p, t)
       /\ e.kind = "restime" => e.ms = t.res
       /\ e.kind = "bodytime" => e.ms = t.body
       \* The length stated, or that of what was received so far
       /\ e.kind = "cltoolong" => e.len = Stated(p)
       /\ e.kind = "toolong" => e.len > t.max /\ (p.stop # "drip" => e.len <= Actual(q, p))
=============================================================================
