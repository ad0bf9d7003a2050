-------------------------------- MODULE Body --------------------------------
(***************************************************************************)
(* Bodies: sinks that accumulate bytes in memory or on disk, the images    *)
(* they become, images wrapped around existing storage, and readers.       *)
(*                                                                         *)
(* Content is a sequence of cells (see DESIGN.md).  Every public operation *)
(* is one action; `ev' is the operation with its arguments and its         *)
(* observable result, so that a recorded execution is a behaviour of this  *)
(* module exactly if every recorded result is the one required here.       *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Ids,          \* object slots
          FileC         \* content of a pre-existing file images may wrap

VARIABLES obj,          \* slot -> object
          ev            \* last event: operation, arguments, result

None == [k |-> "none"]

\* m: where the content is held.  Sinks: "ram", "fs".
Sink(m, c) == [k |-> "sink", m |-> m, c |-> c]
\* Images: "ram", "file" (whole temporary or wrapped file), "map".
Image(m, c) == [k |-> "image", m |-> m, c |-> c]
\* A reader over image `of'; c is what it has still to deliver.
Reader(of, c) == [k |-> "reader", of |-> of, c |-> c]

Is(i, k) == obj[i].k = k
Free(i)  == Is(i, "none")

\* A reader borrows its image, which can't change or go away meanwhile
\* (the Rust compiler guarantees this much).
Pinned(i) == \E r \in Ids : Is(r, "reader") /\ obj[r].of = i

Obs(o) == CASE o.k = "sink"  -> [len |-> Len(o.c), empty |-> o.c = <<>>,
                                 ram |-> o.m = "ram"]
            [] o.k = "image" -> [len |-> Len(o.c), empty |-> o.c = <<>>,
                                 ram |-> o.m = "ram", map |-> o.m = "map"]
            [] OTHER         -> [len |-> 0]

\* Content of an image with nothing in it is always held in memory.
MkImage(m, c) == IF c = <<>> THEN Image("ram", <<>>) ELSE Image(m, c)

Min(a, b) == IF a < b THEN a ELSE b
Prefix(n, s) == SubSeq(s, 1, n)
Suffix(n, s) == SubSeq(s, n + 1, Len(s))
IsPrefix(s, t) == Len(s) <= Len(t) /\ s = Prefix(Len(s), t)

Set(i, o) == obj' = [obj EXCEPT ![i] = o]

-----------------------------------------------------------------------------
\* flt: fault injected by the environment while the operation ran:
\*   "none"; "soft" - an interrupted or partial system call, to be retried;
\*   "hard" - a failing system call.
\* Only a hard fault excuses a failure.
Excused(ok, flt) == ok \/ flt = "hard"

-----------------------------------------------------------------------------
\* Sinks

NewSink(i, how, ok, flt) ==
    /\ Free(i) /\ Excused(ok, flt)
    /\ how = "ram" => ok
    /\ Set(i, IF ok THEN Sink(how, <<>>) ELSE None)
    /\ ev' = [op |-> "sink", i |-> i, how |-> how, ok |-> ok, flt |-> flt,
              obs |-> Obs(obj'[i])]

\* op: "push" (may keep the buffer), "write" (copies), "save" (deprecated alias).
\* A run of writes of parts of cells, one after the other, is the same as one.
Put(i, op, cells, ok, flt) ==
    /\ Is(i, "sink") /\ Excused(ok, flt)
    /\ (obj[i].m = "ram" \/ cells = <<>>) => ok
    /\ Set(i, IF ok THEN Sink(obj[i].m, obj[i].c \o cells) ELSE obj[i])
    /\ ev' = [op |-> op, i |-> i, cells |-> cells, ok |-> ok, flt |-> flt,
              obs |-> Obs(obj'[i])]

\* Move to disk.  dir: is the directory usable?  A failure leaves the sink
\* empty and in memory.
WriteBack(i, dir, ok, flt) ==
    /\ Is(i, "sink")
    /\ IF obj[i].m = "fs" THEN ok
       ELSE IF ~dir THEN ~ok
       ELSE Excused(ok, flt)
    /\ Set(i, IF ok THEN Sink("fs", obj[i].c) ELSE Sink("ram", <<>>))
    /\ ev' = [op |-> "back", i |-> i, dir |-> dir, ok |-> ok, flt |-> flt,
              obs |-> Obs(obj'[i])]

Prepare(i, ok, flt) ==
    /\ Is(i, "sink") /\ Excused(ok, flt)
    /\ Set(i, IF ~ok THEN None
              ELSE IF obj[i].m = "ram" THEN Image("ram", obj[i].c)
              ELSE MkImage("file", obj[i].c))
    /\ ev' = [op |-> "prep", i |-> i, ok |-> ok, flt |-> flt,
              obs |-> Obs(obj'[i])]

-----------------------------------------------------------------------------
\* Images over existing storage

FromSlice(i, cells) ==
    /\ Free(i)
    /\ Set(i, Image("ram", cells))
    /\ ev' = [op |-> "slice", i |-> i, cells |-> cells, obs |-> Obs(obj'[i])]

\* The first n cells of the pre-existing file
FromFile(i, n) ==
    /\ Free(i) /\ n \in 0..Len(FileC)
    /\ Set(i, MkImage("file", Prefix(n, FileC)))
    /\ ev' = [op |-> "file", i |-> i, n |-> n, obs |-> Obs(obj'[i])]

\* Cells a+1..b of the pre-existing file
FromReadSlice(i, a, b) ==
    /\ Free(i) /\ 0 <= a /\ a <= b /\ b <= Len(FileC)
    /\ Set(i, MkImage("file", SubSeq(FileC, a + 1, b)))
    /\ ev' = [op |-> "fslice", i |-> i, a |-> a, b |-> b, obs |-> Obs(obj'[i])]

-----------------------------------------------------------------------------
\* Operations on images

Clone(i, j) ==
    /\ Is(i, "image") /\ Free(j)
    /\ Set(j, obj[i])
    /\ ev' = [op |-> "clone", i |-> i, j |-> j, obs |-> Obs(obj'[j])]

MemMap(i, ok, flt) ==
    /\ Is(i, "image") /\ ~Pinned(i) /\ Excused(ok, flt)
    /\ (obj[i].m # "file") => ok
    /\ Set(i, IF ok /\ obj[i].m = "file" THEN Image("map", obj[i].c) ELSE obj[i])
    /\ ev' = [op |-> "map", i |-> i, ok |-> ok, flt |-> flt, obs |-> Obs(obj'[i])]

\* contig: afterwards, an image in memory is one contiguous buffer
Gather(i) ==
    /\ Is(i, "image") /\ ~Pinned(i)
    /\ UNCHANGED obj
    /\ ev' = [op |-> "gather", i |-> i, contig |-> obj[i].m # "file",
              obs |-> Obs(obj[i])]

\* cap: how much the output takes before it fails (-1: everything);
\* got: what arrived at the output; n: the length returned
WriteTo(i, cap, ok, flt, got) ==
    /\ Is(i, "image")
    /\ IF cap >= 0 /\ cap < Len(obj[i].c) THEN ~ok /\ Len(got) <= cap ELSE Excused(ok, flt)
    /\ IF ok THEN got = obj[i].c ELSE IsPrefix(got, obj[i].c)
    /\ UNCHANGED obj
    /\ ev' = [op |-> "out", i |-> i, cap |-> cap, ok |-> ok, flt |-> flt,
              n |-> IF ok THEN Len(obj[i].c) ELSE 0, got |-> got]

Explode(i) ==
    /\ Is(i, "image") /\ ~Pinned(i)
    /\ Set(i, None)
    /\ ev' = [op |-> "expl", i |-> i, m |-> obj[i].m, got |-> obj[i].c]

-----------------------------------------------------------------------------
\* Readers

NewReader(i, r) ==
    /\ Is(i, "image") /\ Free(r)
    /\ Set(r, Reader(i, obj[i].c))
    /\ ev' = [op |-> "reader", i |-> i, r |-> r]

\* A read into a buffer of n cells delivers some of what is left, and
\* nothing exactly at the end (or for an empty buffer).
Read(r, n, ok, flt, got) ==
    /\ Is(r, "reader") /\ Excused(ok, flt)
    /\ ok => /\ Len(got) <= Min(n, Len(obj[r].c))
             /\ got = Prefix(Len(got), obj[r].c)
             /\ (got = <<>>) <=> (n = 0 \/ obj[r].c = <<>>)
    /\ ~ok => got = <<>>
    /\ Set(r, Reader(obj[r].of, Suffix(Len(got), obj[r].c)))
    /\ ev' = [op |-> "read", r |-> r, n |-> n, ok |-> ok, flt |-> flt, got |-> got]

\* Read to the end
ReadAll(r, ok, flt, got) ==
    /\ Is(r, "reader") /\ Excused(ok, flt)
    /\ IF ok THEN got = obj[r].c ELSE IsPrefix(got, obj[r].c)
    /\ Set(r, Reader(obj[r].of, IF ok THEN <<>> ELSE Suffix(Len(got), obj[r].c)))
    /\ ev' = [op |-> "readall", r |-> r, ok |-> ok, flt |-> flt, got |-> got]

Drop(i) ==
    /\ ~Free(i) /\ ~Pinned(i)
    /\ Set(i, None)
    /\ ev' = [op |-> "drop", i |-> i]

-----------------------------------------------------------------------------
Init == obj = [i \in Ids |-> None] /\ ev = [op |-> "init"]

Kinds == {"none", "sink", "image", "reader"}
TypeOK == \A i \in Ids :
    /\ obj[i].k \in Kinds
    /\ obj[i].k = "sink"   => obj[i].m \in {"ram", "fs"}
    /\ obj[i].k = "image"  => obj[i].m \in {"ram", "file", "map"}

\* Images not in memory are never empty (an empty file can't be mapped)
NoEmptyFile == \A i \in Ids : Is(i, "image") /\ obj[i].m # "ram" => obj[i].c # <<>>

\* What a reader has left is always a tail of its image's content
ReaderTail == \A r \in Ids : Is(r, "reader") =>
    /\ Is(obj[r].of, "image")
    /\ LET c == obj[obj[r].of].c
       IN /\ Len(obj[r].c) <= Len(c)
          /\ obj[r].c = Suffix(Len(c) - Len(obj[r].c), c)

\* An operation on one object never changes another (action property)
Touched(e) == CASE e.op \in {"clone"} -> {e.j}
                [] e.op \in {"reader", "read", "readall"} -> {e.r}
                [] OTHER -> {e.i}
Independent == [][\A i \in Ids : obj'[i] # obj[i] => i \in Touched(ev')]_<<obj, ev>>
=============================================================================
