------------------------------ MODULE GenParse ------------------------------
(* Archives of a few small records, and what to damage in them. *)
EXTENDS RecGen, TLC, Json, IOUtils
VARIABLE x
Seed == atoi(IOEnv.SEED)
Bases == atoi(IOEnv.NUM)

Hd(w, i) ==
  LET ns == Pick(w, i, <<<<>>, <<0>>, <<1>>, <<0, 3>>, <<3>>>>)
  IN [h |-> [j \in 1..Len(ns) |-> <<ns[j], [v \in 1..(1 + (Mix(w, i + 20 * j) % 2))
                                             |-> Pick(w, i + 20 * j + v, <<0, 1, 4, 8, 9, 10>>)]>>],
      b |-> 0]
Bd(w, i) == B("slice", [j \in 1..(Mix(w, i + 1) % 4) |-> Mix(w, i + 1 + j) % 120])
Rec(w) == [m |-> Hd(w, 1000), qh |-> Hd(w, 2000), qb |-> Bd(w, 3000), rh |-> Hd(w, 4000), rb |-> Bd(w, 5000)]
Strat(w) == LET k == Pick(w, 1, <<"none", "none", "gzip", "brotli">>)
            IN IF k = "none" THEN [k |-> k] ELSE [k |-> k, min |-> 0, lvl |-> 6, id |-> FALSE]
Base(w) == [k \in 1..2 |-> [c |-> Rec(w * 3 + k), z |-> Strat(w * 11 + k)]]

\* Damage; positions and values are taken modulo what there is
Trunc == [k : {"trunc"}, n : 0..260]
FieldEdit == [k : {"field"}, r : 1..2, f : 1..5, how : 1..12]
HeadByte == [k : {"head"}, r : 1..2, at : 0..53, v : {0, 10, 13, 32, 48, 57, 65, 70, 71, 80, 82, 90, 97, 102, 103, 255}]
DataByte == [k : {"data"}, at : 0..200, v : {0, 10, 13, 32, 58, 65, 97, 127, 255}]
Shift == [k : {"ins"}, at : 0..200, v : {10, 13, 48, 97}] \cup [k : {"del"}, at : 0..200]
One == {<<>>} \cup {<<d>> : d \in Trunc \cup FieldEdit \cup HeadByte \cup DataByte \cup Shift}
Kinds == <<"trunc", "field", "head", "data", "ins", "del">>
Rnd(w) == LET k == Pick(w, 1, Kinds) IN
  CASE k = "trunc" -> [k |-> k, n |-> Mix(w, 2) % 300]
    [] k = "field" -> [k |-> k, r |-> 1 + (Mix(w, 3) % 2), f |-> 1 + (Mix(w, 4) % 5), how |-> 1 + (Mix(w, 5) % 12)]
    [] k = "head"  -> [k |-> k, r |-> 1 + (Mix(w, 3) % 2), at |-> Mix(w, 6) % 54, v |-> Mix(w, 7) % 256]
    [] k = "data"  -> [k |-> k, at |-> Mix(w, 2) % 300, v |-> Mix(w, 7) % 256]
    [] k = "ins"   -> [k |-> k, at |-> Mix(w, 2) % 300, v |-> Mix(w, 7) % 256]
    [] k = "del"   -> [k |-> k, at |-> Mix(w, 2) % 300]
Several == {[i \in 1..(2 + (w % 3)) |-> Rnd(Seed * 5003 + w * 7 + i)] : w \in 1..400}
Script(b, m) == [recs |-> Base(Seed * 1000 + b), m |-> m, mode |-> "file", c |-> 5]
GInit == x \in {Script(b, m) : b \in 1..Bases, m \in One \cup Several}
GNext == x # <<>> /\ PrintT(<<"GEN", ToJson(x)>>) /\ x' = <<>>
=============================================================================
