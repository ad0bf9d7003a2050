------------------------------- MODULE Decode -------------------------------
(***************************************************************************)
(* Decoding the response body of a dialog.  Its body is described by how it *)
(* was made: cells v encoded with compression z (or plain), and then left   *)
(* intact, cut short, or damaged.                                           *)
(*                                                                         *)
(* d: the dialog, e: what decoding it gave, with e.bef and e.aft the body   *)
(* (as cells, if it is plain), its identity (a digest of form and bytes)     *)
(* and the list of encodings removed, before and after.                     *)
(***************************************************************************)
EXTENDS Encodings

Comp(d) == LET x == LastComp(Flat(d.te), Flat(d.ce)) IN IF x = <<>> THEN "" ELSE x[1]
Removed(d) == Found(Flat(d.te), Flat(d.ce)) \o <<"Identity">>
Size(d) == Len(d.v) * d.c

Unchanged(e) == e.aft = e.bef
Failed(e) == e.r = "err" /\ Unchanged(e)
\* The body was replaced, as told by the list, and is within limits
Replaced(d, e) ==
  /\ e.r = "true" /\ e.aft.dec = Removed(d)
  /\ e.aft.len <= d.max
  /\ e.aft.len > d.ram => ~e.aft.mem
\* The multiple set for a compression, or else (0) that by default
Est(d, z) == IF d.est[z] > 0 THEN d.est[z] ELSE [Gzip |-> 5, Deflate |-> 4, Brotli |-> 6][z]
\* In memory if that has room for both the estimated (a multiple of the
\* compressed length) and the actual length; or empty
InMem(d, e) == Size(d) = 0 \/ (Size(d) <= d.ram /\ e.bef.len <= d.ram \div Est(d, Comp(d)))
Exact(d, e) == Replaced(d, e) /\ e.aft.v = d.v /\ e.aft.len = Size(d) /\ e.aft.mem = InMem(d, e)

Allowed(d, e) ==
  CASE Comp(d) = "" ->
         e.r = "false" /\ e.aft = [e.bef EXCEPT !.dec = Removed(d)]
    [] Comp(d) = "Compress" -> Failed(e) /\ e.kind = "unsupported"
    [] e.flt = "hard" -> Failed(e) \/ (d.how = "intact" /\ d.z = Comp(d) /\ Exact(d, e))
    [] d.z = Comp(d) /\ d.how = "intact" ->
         IF Size(d) > d.max THEN Failed(e) /\ e.kind = "long" ELSE Exact(d, e)
    [] d.z = Comp(d) /\ d.how = "cut" -> Failed(e)
    \* Only gzip has a checksum
    [] d.z = Comp(d) /\ d.how = "flip" /\ d.z = "Gzip" -> Failed(e) \/ Exact(d, e)
    [] OTHER -> Failed(e) \/ Replaced(d, e)
=============================================================================
