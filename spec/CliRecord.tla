------------------------------ MODULE CliRecord -----------------------------
(***************************************************************************)
(* The command record, for what the server does (p) and the options (o).    *)
(* p.z: the compression of the content as served; p.te, p.ce: the codings    *)
(* named.                                                                   *)
(***************************************************************************)
EXTENDS Encodings
Te(p) == Flat(p.te) \o (IF p.fr = "chunked" THEN <<"chunked">> ELSE <<>>)
Ce(p) == Flat(p.ce)
Comp(p) == LET x == LastComp(Te(p), Ce(p)) IN IF x = <<>> THEN "" ELSE x[1]

Fails(p, o) ==
  \/ p.stop # "ok" \/ o.url # "ok" \/ o.file # "ok"
  \/ o.decode /\ (Comp(p) = "Compress" \/ (Comp(p) # "" /\ (Comp(p) # p.z \/ p.cut)))
\* Content stored: plain as originally encoded, or as sent
Body(p, o, r) == IF o.decode /\ Comp(p) # "" THEN r.plain ELSE r.sent
Decoded(p, o) == IF o.decode THEN Found(Te(p), Ce(p)) \o <<"Identity">>
                 ELSE IF HasChunked(Te(p)) THEN <<"Chunked">> ELSE <<>>
Modes(p, o) ==
  LET n == Len(p.v) * p.c IN
  IF o.z = "P" THEN {"P"}
  ELSE IF o.decode /\ p.type = "text/html" /\ n >= 20000 THEN {o.z}
  ELSE IF p.type = "image/png" /\ p.z = "" /\ n >= 20000 THEN {"P"}
  ELSE {"P", o.z}
RecordOk(p, o, e) ==
  /\ e.kept /\ e.clean
  /\ IF e.code = 0 THEN
       /\ ~Fails(p, o)
       /\ e.more = 1
       /\ e.rec.method = "GET" /\ e.rec.url /\ e.rec.status = p.status /\ e.rec.ver = p.ver
       /\ e.rec.dec = Decoded(p, o) /\ Body(p, o, e.rec)
       \* Headers as received by the server, and as sent by it
       /\ e.rec.qh /\ e.rec.rh /\ e.rec.nobody
       /\ e.rec.accept = o.accept
       /\ e.rec.mode \in Modes(p, o)
     ELSE (Fails(p, o) \/ o.full) /\ e.more = 0
=============================================================================
