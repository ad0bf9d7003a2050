------------------------------ MODULE GenBody -------------------------------
(* Behaviours of Body for replay into the implementation.  As an action    *)
(* constraint, Edge prints every transition of the (small) state graph;     *)
(* in simulation, SimNext prints whole behaviours of the large one.          *)
EXTENDS BodyNext, TLC, Json
CONSTANTS Depth, Ops
VARIABLE h

GFile == <<101, 102, 103, 104, 105, 106>>
GFile3 == <<101, 102, 103>>
GFile2 == <<101, 102>>
AllOps == {"sink", "push", "write", "save", "back", "prep", "slice", "file", "fslice", "clone",
           "map", "gather", "out", "expl", "reader", "read", "readall", "drop"}
\* Sharing of one image
ReadOps == {"slice", "file", "fslice", "sink", "push", "prep", "clone", "map", "out", "reader", "read"}
\* Operations with system calls
FaultOps == {"sink", "push", "write", "back", "prep", "file", "map", "out", "reader", "read", "readall"}

\* Here results are what a prompt implementation would give.
Prompt == ev'.op \in Ops /\ (ev'.op \in {"read"} => Len(ev'.got) = Min(ev'.n, Len(obj[ev'.r].c)))

GInit == SpecInit /\ h = <<>>
EdgeNext == Step /\ Prompt /\ UNCHANGED h
Edge == PrintT(<<"EDGE", ToJson(View), ToJson(ev'), ToJson(View')>>)

SimNext ==
  \/ Len(h) < Depth /\ Step /\ Prompt /\ h' = Append(h, ev')
  \/ /\ Len(h) = Depth
     /\ PrintT(<<"GEN", ToJson(h)>>)
     /\ h' = Append(h, ev)
     /\ UNCHANGED vars
=============================================================================
