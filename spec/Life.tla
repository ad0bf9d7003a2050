-------------------------------- MODULE Life --------------------------------
(* What values hold on to.  Bodies, their parts, streams and buffers made   *)
(* from these, records, readers and archive handles live in slots.  Each    *)
(* keeps what it needs, whatever happens to where it came from (other       *)
(* values dropped, the archive removed), and nothing is kept open or mapped *)
(* without a value that needs it.                                           *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Slots
VARIABLES obj,      \* slot -> [k, v, u]: kind, content, files used
          path,     \* is there an archive at the path?
          ev

None == [k |-> "none", v |-> <<>>, u |-> {}]
Is(x, k) == obj[x].k = k
Free(x) == Is(x, "none")
Used(o) == UNION {o[x].u : x \in Slots}
\* Kinds with content that can be looked at again and again
Shows(k) == k \in {"img", "parts", "buf", "rec"}
\* Contents are parts <<cell, from, to>>.  Does b start with a, and what of b
\* remains after?
RECURSIVE IsPrefix(_, _), Rest(_, _)
Same(p, q) == p[1] = q[1] /\ p[2] = q[2] /\ p[3] <= q[3]
After(p, q) == IF p[3] = q[3] THEN <<>> ELSE <<<<q[1], p[3], q[3]>>>>
IsPrefix(a, b) ==
  IF a = <<>> THEN TRUE
  ELSE /\ b # <<>> /\ Same(a[1], b[1])
       /\ IsPrefix(Tail(a), After(a[1], b[1]) \o Tail(b))
Rest(a, b) == IF a = <<>> THEN b ELSE Rest(Tail(a), After(a[1], b[1]) \o Tail(b))

\* A value appears in x, with the new files n (if any) and those of y
Appear(x, k, v, n, u) == Free(x) /\ obj' = [obj EXCEPT ![x] = [k |-> k, v |-> v, u |-> n \cup u]]
Become(x, k, n) == obj' = [obj EXCEPT ![x].k = k, ![x].u = @ \cup n]

Image(x, v, n)  == Appear(x, "img", v, n, {}) /\ UNCHANGED path
SinkOf(x, v, n) == Appear(x, "sink", v, n, {}) /\ UNCHANGED path
More(x, v, n)   == Is(x, "sink") /\ obj' = [obj EXCEPT ![x].v = @ \o v, ![x].u = @ \cup n] /\ UNCHANGED path
Back(x, n)      == Is(x, "sink") /\ Become(x, "sink", n) /\ UNCHANGED path
Prepare(x, n)   == Is(x, "sink") /\ Become(x, "img", n) /\ UNCHANGED path
Clone(x, y, n)  == Is(x, "img") /\ Appear(y, "img", obj[x].v, n, obj[x].u) /\ UNCHANGED path
Map(x, n)       == Is(x, "img") /\ Become(x, "img", n) /\ UNCHANGED path
\* A reader of the image, which may outlive it
View(x, y, n)   == Is(x, "img") /\ Appear(y, "parts", obj[x].v, n, obj[x].u) /\ UNCHANGED path
Explode(x, n)   == Is(x, "img") /\ Become(x, "parts", n) /\ UNCHANGED path
Stream(x, n)    == Is(x, "img") /\ Become(x, "str", n) /\ UNCHANGED path
\* The next item, kept in y; or the end
Poll(x, y, v, n) ==
  /\ Is(x, "str") /\ Free(y) /\ IsPrefix(v, obj[x].v)
  /\ IF v = <<>> THEN obj[x].v = <<>> /\ UNCHANGED obj
     ELSE obj' = [obj EXCEPT ![x].v = Rest(v, @), ![x].u = @ \cup n,
                             ![y] = [k |-> "buf", v |-> v, u |-> n \cup obj[x].u]]
  /\ UNCHANGED path
\* A handle opened for writing, the archive being made if there is none
Archive(x, n) == Appear(x, "arc", <<>>, n, {}) /\ path' = TRUE
Reader(x, y, n) == Is(x, "arc") /\ path /\ Appear(y, "rdr", <<>>, n, {}) /\ UNCHANGED path
\* A record of content v, of a reader which was opened on the archive
Record(x, y, v, n) == Is(x, "rdr") /\ Appear(y, "rec", v, n, obj[x].u) /\ UNCHANGED path
\* One of its bodies
BodyOf(x, y, v, n) == Is(x, "rec") /\ Appear(y, "img", v, n, obj[x].u) /\ UNCHANGED path
\* Something that doesn't succeed leaves nothing behind
Nothing == UNCHANGED <<obj, path>>
Remove == path /\ path' = FALSE /\ UNCHANGED obj
Drop(x) == ~Free(x) /\ obj' = [obj EXCEPT ![x] = None] /\ UNCHANGED path

\* Afterwards: files open or mapped, and content of the values that show it
Look(o, open, got) ==
  /\ open \subseteq Used(o)
  /\ \A x \in Slots : Shows(o[x].k) => <<x, o[x].v>> \in got
=============================================================================
