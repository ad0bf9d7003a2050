------------------------------ MODULE GenLife -------------------------------
EXTENDS Life, RecGen, TLC, Json
CONSTANTS Depth
VARIABLES h
Draw == RandomElement(1..(1000000 + 0 * Len(h)))
Cells(w) == [k \in 1..(1 + (Mix(w, 1) % 3)) |-> Mix(w, 1 + k) % 120]
AForms == <<"slice", "ram", "gath", "fs", "fs", "back", "map", "fslice", "mslice">>
Some(w) == SubSeq(Cells(w), 1, Mix(w, 8) % (Len(Cells(w)) + 1))
SForms == <<"ram", "fs">>
Fails == <<"long", "source", "offset", "write">>
Kinds == <<"direct", "split", "yield">>
Full(v) == [k \in 1..Len(v) |-> <<v[k], 0, 1>>]
\* Content of the records of every archive
RecV(k) == IF k = 1 THEN <<<<1>>, <<2, 3>>>> ELSE <<<<4>>, <<5, 6>>>>
Rec(op) == h' = Append(h, op)
Step ==
  \/ \E x \in Slots, w \in {Draw} : Image(x, Full(Cells(w)), {})
        /\ Rec([op |-> "img", x |-> x, f |-> Pick(w, 9, AForms), v |-> Cells(w)])
  \/ \E x \in Slots, w \in {Draw} : SinkOf(x, Full(Some(w)), {})
        /\ Rec([op |-> "sink", x |-> x, f |-> Pick(w, 9, SForms), v |-> Some(w)])
  \/ \E x \in Slots, w \in {Draw} : More(x, Full(Some(w)), {})
        /\ Rec([op |-> "more", x |-> x, by |-> Pick(w, 9, <<"write", "push", "async">>), v |-> Some(w)])
  \/ \E x \in Slots : Back(x, {}) /\ Rec([op |-> "wb", x |-> x])
  \/ \E x, y \in Slots : View(x, y, {}) /\ Rec([op |-> "view", x |-> x, y |-> y])
  \/ \E x \in Slots, w \in {Draw} : Image(x, Full(Cells(w)), {})
        /\ Rec([op |-> "dec", x |-> x, f |-> Pick(w, 9, AForms), small |-> Pick(w, 10, <<TRUE, FALSE>>), v |-> Cells(w)])
  \/ \E w \in {Draw} : Nothing
        /\ Rec([op |-> "fail", how |-> Pick(w, 9, Fails), v |-> Cells(w)])
  \/ \E x \in Slots : Prepare(x, {}) /\ Rec([op |-> "prep", x |-> x])
  \/ \E x, y \in Slots : Clone(x, y, {}) /\ Rec([op |-> "clone", x |-> x, y |-> y])
  \/ \E x \in Slots : Map(x, {}) /\ Rec([op |-> "map", x |-> x])
  \/ \E x \in Slots : Explode(x, {}) /\ Rec([op |-> "expl", x |-> x])
  \/ \E x \in Slots, w \in {Draw} : Stream(x, {})
        /\ Rec([op |-> "str", x |-> x, kind |-> Pick(w, 9, Kinds), uni |-> Pick(w, 10, <<TRUE, FALSE>>)])
  \/ \E x, y \in Slots : Poll(x, y, IF obj[x].v = <<>> THEN <<>> ELSE <<obj[x].v[1]>>, {})
        /\ Rec([op |-> "poll", x |-> x, y |-> y])
  \/ \E x \in Slots : Archive(x, {}) /\ Rec([op |-> "arc", x |-> x])
  \/ \E x, y \in Slots : Reader(x, y, {}) /\ Rec([op |-> "rdr", x |-> x, y |-> y])
  \/ \E x, y \in Slots, w \in {Draw} : LET k == 1 + (Mix(w, 1) % 2) IN
        Record(x, y, Full(RecV(k)[1] \o RecV(k)[2]), {})
        /\ Rec([op |-> "rec", x |-> x, y |-> y, k |-> k, small |-> Pick(w, 9, <<TRUE, TRUE, FALSE>>)])
  \/ \E x, y \in Slots, w \in {Draw} : LET res == Mix(w, 1) % 2 = 0 v == obj[x].v IN
        BodyOf(x, y, IF res THEN SubSeq(v, 2, 3) ELSE SubSeq(v, 1, 1), {})
        /\ Rec([op |-> "body", x |-> x, y |-> y, res |-> res])
  \/ Remove /\ Rec([op |-> "remove"])
  \/ \E x \in Slots : Drop(x) /\ Rec([op |-> "drop", x |-> x])
GInit == obj = [x \in Slots |-> None] /\ path = FALSE /\ ev = <<>> /\ h = <<>>
SimNext ==
  \/ Len(h) < Depth /\ Step /\ UNCHANGED ev
  \/ Len(h) = Depth /\ PrintT(<<"GEN", ToJson(h)>>) /\ h' = Append(h, <<>>) /\ UNCHANGED <<obj, path, ev>>
=============================================================================
