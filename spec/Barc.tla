-------------------------------- MODULE Barc --------------------------------
(* An archive as its clients see it: records are appended through handles  *)
(* and read back by any number of readers, each with its own position.      *)
(* Positions are byte offsets.  What a record holds is a value; reading     *)
(* gives back exactly that value.                                           *)
EXTENDS Integers, Sequences

CONSTANTS Handles, Readers, Slots,
          Focus         \* properties to judge

VARIABLES recs,         \* records in order: [c, at, end, z]
          size,         \* of the archive in bytes
          exists,       \* has a writer been opened?
          open,         \* handles in use
          rd,           \* reader -> position, -1 unknown, -2 not open
          kept,         \* slot -> what is expected of a record kept
          ev
state == <<recs, size, exists, open, rd, kept>>

Judge(p) == p \in Focus
Nothing == [k |-> "none"]
\* Bytes of a body of n cells
CONSTANT C(_)
Min4K == 4096

Init == /\ recs = <<>> /\ size = 0 /\ exists = FALSE /\ open = {}
        /\ rd = [r \in Readers |-> -2]
        /\ kept = [x \in Slots |-> Nothing]
        /\ ev = Nothing

\* Index of the record at offset o, or 0
At(o) == IF \E i \in 1..Len(recs) : recs[i].at = o
         THEN CHOOSE i \in 1..Len(recs) : recs[i].at = o ELSE 0

\* Any number of handles for the path
Open(h) == /\ open' = open \cup {h}
           /\ ev' = [op |-> "open", h |-> h]
           /\ UNCHANGED <<recs, size, exists, rd, kept>>

\* The record appears at the former end; what was there before stays.
Write(h, c, z, off, end, pre, mode) ==
  /\ h \in open
  /\ Judge("C08") => off = size /\ end > off /\ pre
  /\ mode \in (IF z = "none" THEN {"P"} ELSE IF z = "gzip" THEN {"P", "Z"} ELSE {"P", "B"})
  /\ recs' = Append(recs, [c |-> c, at |-> off, end |-> end, z |-> mode # "P"])
  /\ size' = end
  /\ exists' = TRUE
  /\ ev' = [op |-> "write", h |-> h, c |-> c, z |-> z, off |-> off, end |-> end]
  /\ UNCHANGED <<open, rd, kept>>

\* A reader needs the file; it starts at the first record.
NewReader(h, r, ok) ==
  /\ h \in open
  /\ ok = exists
  /\ rd' = IF ok THEN [rd EXCEPT ![r] = 0] ELSE rd
  /\ ev' = [op |-> "reader", h |-> h, r |-> r, ok |-> ok]
  /\ UNCHANGED <<recs, size, exists, open, kept>>

\* To the k-th record written (0: to the end)
Seek(r, k, off) ==
  /\ rd[r] # -2
  /\ k \in 0..Len(recs)
  /\ off = (IF k = 0 THEN size ELSE recs[k].at)
  /\ rd' = [rd EXCEPT ![r] = off]
  /\ ev' = [op |-> "seek", r |-> r, k |-> k]
  /\ UNCHANGED <<recs, size, exists, open, kept>>

\* Where may a body of n cells be, for memory threshold mr?  A plain one is
\* stored with 2 bytes more.
PlaceOk(n, mr, z, m) ==
  LET b == C(n) IN
  /\ n = 0 => m = "ram"
  /\ b > mr => m = "file"
  /\ (n > 0 /\ b + 2 <= mr /\ (z => mr >= Min4K)) => m = "ram"
  /\ m \in {"ram", "file"}

FileCount(q, s) == (IF q = "file" THEN 1 ELSE 0) + (IF s = "file" THEN 1 ELSE 0)

Read(r, x, mr, mb, k, c, off, q, s, tmp) ==
  /\ rd[r] >= 0
  /\ ev' = [op |-> "read", r |-> r, x |-> x]
  /\ LET i == At(rd[r]) IN
     IF rd[r] = size
     THEN /\ k = "none"
          /\ Judge("C08") => off = size
          /\ UNCHANGED <<rd, kept>>
     ELSE /\ i # 0
          /\ LET w == recs[i]
                 long == w.z /\ C(Len(w.c.rb)) > mb
             IN IF long
                THEN /\ k = "toolong"
                     /\ rd' = [rd EXCEPT ![r] = -1]
                     /\ UNCHANGED kept
                ELSE /\ k = "rec"
                     /\ Judge("C06") \/ Judge("C08") \/ Judge("C14") => c = w.c
                     /\ Judge("C08") => off = w.end
                     /\ Judge("C14") => /\ PlaceOk(Len(w.c.qb), mr, w.z, q)
                                        /\ PlaceOk(Len(w.c.rb), mr, w.z, s)
                                        /\ IF w.z THEN tmp \in FileCount(q, s)..2 ELSE tmp = 0
                     /\ rd' = [rd EXCEPT ![r] = off]
                     /\ kept' = IF x \in Slots
                                THEN [kept EXCEPT ![x] = [k |-> "rec", c |-> w.c, q |-> q, s |-> s]]
                                ELSE kept
  /\ UNCHANGED <<recs, size, exists, open>>

Mapped(m) == IF m = "file" THEN "map" ELSE m

\* A record read earlier stays as it was, also when mapped.
Peek(x, map, ok, c, q, s) ==
  /\ kept[x] # Nothing
  /\ ok
  /\ c = kept[x].c
  /\ LET kq == IF map THEN Mapped(kept[x].q) ELSE kept[x].q
         ks == IF map THEN Mapped(kept[x].s) ELSE kept[x].s
     IN /\ Judge("C14") => q = kq /\ s = ks
        /\ kept' = [kept EXCEPT ![x].q = kq, ![x].s = ks]
  /\ ev' = [op |-> "peek", x |-> x, map |-> map]
  /\ UNCHANGED <<recs, size, exists, open, rd>>

Drop(x) ==
  /\ kept[x] # Nothing
  /\ kept' = [kept EXCEPT ![x] = Nothing]
  /\ ev' = [op |-> "drop", x |-> x]
  /\ UNCHANGED <<recs, size, exists, open, rd>>

-----------------------------------------------------------------------------
\* Records tile the archive
Tiled == /\ \A i \in 1..Len(recs) : recs[i].at = (IF i = 1 THEN 0 ELSE recs[i - 1].end)
         /\ size = (IF recs = <<>> THEN 0 ELSE recs[Len(recs)].end)
\* A reader is at a record or at the end
Placed == \A r \in Readers : rd[r] >= 0 => rd[r] = size \/ At(rd[r]) # 0
=============================================================================
