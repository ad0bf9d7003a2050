------------------------------ MODULE Encodings -----------------------------
(***************************************************************************)
(* The encodings reported for transfer-encoding and content-encoding        *)
(* headers, each a list of header lines, each a list of names.              *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE Flat(_)
Flat(ls) == IF ls = <<>> THEN <<>> ELSE ls[1] \o Flat(Tail(ls))

Canon == [gzip |-> "Gzip", deflate |-> "Deflate", br |-> "Brotli", compress |-> "Compress"]
IsComp(n) == n \in {"gzip", "x-gzip", "deflate", "br", "compress"}
CompOf(n) == IF n = "x-gzip" THEN "Gzip" ELSE Canon[n]
Comps(ns) == SelectSeq(ns, IsComp)

HasChunked(te) == \E i \in 1..Len(te) : te[i] = "chunked"
\* The compression applied last, transfer codings being applied after content
\* codings
LastComp(te, ce) ==
  LET t == Comps(te)  c == Comps(ce) IN
  IF t # <<>> THEN <<CompOf(t[Len(t)])>> ELSE IF c # <<>> THEN <<CompOf(c[Len(c)])>> ELSE <<>>
Found(te, ce) == (IF HasChunked(te) THEN <<"Chunked">> ELSE <<>>) \o LastComp(te, ce)
=============================================================================
