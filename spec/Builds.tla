------------------------------- MODULE Builds -------------------------------
(***************************************************************************)
(* The operations of System in a build with only some of the optional       *)
(* parts, that shares its archives with a full build, the "other".  Without *)
(* brotli, what needs it is refused, and all else stays as it was.  Memory   *)
(* mapping, assertions and overflow checks make no difference at all.        *)
(***************************************************************************)
EXTENDS System
VARIABLES code,   \* archive -> of each record, if it is compressed with brotli
          br      \* if this build has brotli

BInit(b) == Init /\ code = [a \in Archives |-> <<>>] /\ br = b
Stays == UNCHANGED <<body, dlg, arch, code, br>>
Alike(A) == A /\ UNCHANGED <<code, br>>
Known(z) == br \/ ~z

BDecode(d, r) ==
  IF Open(d) /\ dlg[d].ce = "Brotli" /\ ~br THEN r = "err" /\ Stays
  ELSE Alike(Decode(d, r))
BWrite(a, d, z, who) ==
  /\ Write(a, d) /\ code' = [code EXCEPT ![a] = Append(@, z)] /\ UNCHANGED br
  /\ Known(z) \/ who = "other"
BRead(a, i, d, r) ==
  /\ i \in 1..Len(arch[a])
  /\ IF Known(code[a][i]) THEN r = "ok" /\ Alike(Read(a, i, d)) ELSE r = "err" /\ Stays
BCopyRec(a, i, b, z, r) ==
  /\ i \in 1..Len(arch[a])
  /\ IF Known(code[a][i])
     THEN r = "ok" /\ Known(z) /\ CopyRec(a, i, b) /\ code' = [code EXCEPT ![b] = Append(@, z)] /\ UNCHANGED br
     ELSE r = "err" /\ Stays
\* The records before the first that can not be read
Readable(a) == CHOOSE n \in 0..Len(arch[a]) :
                 /\ \A i \in 1..n : Known(code[a][i])
                 /\ n = Len(arch[a]) \/ ~Known(code[a][n + 1])
BScan(a, got, r, who) ==
  /\ LET n == IF who = "other" THEN Len(arch[a]) ELSE Readable(a)
     IN got = SubSeq(arch[a], 1, n) /\ r = (IF n = Len(arch[a]) THEN "ok" ELSE "err")
  /\ Stays
\* All records, by the program; zs is how they were written
Cp(a, b, z, r, zs) ==
  /\ a # b
  /\ IF z = "brotli" /\ ~br THEN r = "err" /\ zs = <<>> /\ Stays
     ELSE LET n == Readable(a) IN
          /\ r = (IF n = Len(arch[a]) THEN "ok" ELSE "err")
          /\ Len(zs) = n /\ \A i \in 1..n : zs[i] => z = "brotli"
          /\ arch' = [arch EXCEPT ![b] = @ \o SubSeq(arch[a], 1, n)]
          /\ code' = [code EXCEPT ![b] = @ \o zs]
          /\ UNCHANGED <<body, dlg, br>>
\* The program has no way to fetch
Record(a, r) == r = "err" /\ Stays
BReset(a) == Reset(a) /\ code' = [code EXCEPT ![a] = <<>>] /\ UNCHANGED br
\* The encodings offered to servers are those that can be decoded
Offer(known, b) == known /\ b = br /\ Stays
=============================================================================
