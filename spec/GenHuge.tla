------------------------------ MODULE GenHuge -------------------------------
(* Huge bodies to be made and looked at, and archives of such. *)
EXTENDS Huge, RecGen, TLC, Json, IOUtils
VARIABLE x
Seed == atoi(IOEnv.SEED)
Count == atoi(IOEnv.NUM)
Mode == IOEnv.MODE

\* Around 2^31 and 2^32, and others beyond
Lens == <<<<128, 0>>, <<127, Base - 1>>, <<128, 11>>, <<256, 0>>, <<255, Base - 1>>, <<256, 1>>, <<256, 4>>,
          <<256, 4096>>, <<256, 1000>>, <<257, 77>>, <<320, 123>>, <<384, 5000>>>>
AnyLens == Lens \o <<Zero, Num(1), Num(700), Num(5000)>>
LenOf(w, k, ls) == Pick(w, k, ls)
Body(w, k, ls) == BodyOfLen(LenOf(w, k, ls), (w + k) % 50)
\* Limits in relation to the length
LimitFor(n, w) == Pick(w, 9, <<n, Minus(n, Num(1)), Add(n, Num(1)), <<128, 0>>, <<255, Base - 1>>, <<256, 0>>, <<4095, 0>>>>)

ImgCase(w) == LET b == Body(w, 1, Lens) IN
  [mode |-> "img", body |-> b, how |-> Pick(w, 2, <<"file", "slice", "sink", "rf">>),
   at |-> Pick(w, 3, <<Zero, Num(54), <<255, Base - 3>>, <<256, 100>>>>),
   est |-> Pick(w, 4, <<Zero, b.n, <<256, 7>>, Num(10)>>),
   lim |-> <<4095, 0>>,
   ops |-> <<"read", "map", "write_to", "explode">>]
LimCase(w) == LET b == Body(w, 1, Lens) IN
  [mode |-> "img", body |-> b, how |-> "rf", at |-> Zero,
   est |-> Pick(w, 4, <<Zero, b.n, <<256, 7>>, Num(10)>>), lim |-> LimitFor(b.n, w), ops |-> <<"read">>]
StreamCase(w) ==
  [mode |-> "img", body |-> Body(w, 1, Lens), how |-> Pick(w, 2, <<"file", "slice">>),
   at |-> Pick(w, 3, <<Zero, Num(54), <<256, 100>>>>), est |-> Zero, lim |-> Zero,
   ops |-> <<Pick(w, 5, <<"bytes", "uni", "mapped", "split">>)>>]
SinkCase(w) == LET b == Body(w, 1, Lens) IN
  [mode |-> "img", body |-> b, how |-> "asink", at |-> Zero, est |-> Zero,
   lim |-> LimitFor(b.n, w), ops |-> <<"read">>]
\* Of one or two records
Rec(w, ls) == [m |-> Mix(w, 20) % 10, qh |-> Mix(w, 21) % 10, q |-> Body(w, 22, AnyLens), rh |-> Mix(w, 23) % 10,
               s |-> Body(w, 24, ls)]
ArchCase(w, how) == LET rs == [k \in 1..(1 + (Mix(w, 25) % 3)) |-> Rec(w * 4 + k, IF k = 1 THEN Lens ELSE AnyLens)]
                        os == Offsets(rs, Zero)
                    IN [mode |-> "arch", how |-> how, z |-> [k |-> "none"], recs |-> rs, offs |-> os, pieces |-> AllPieces(rs, Zero)]
\* Compressed, with one huge body
ZipCase(w) == LET z == IF w % 4 < 2 THEN "gzip" ELSE "brotli"
                  n == IF w % 20 > 15 THEN <<128, 3>> ELSE Pick(w, 31, <<<<256, 5>>, <<256, 0>>, <<256, 1>>, <<256, 8193>>>>)
                  r == [m |-> 1, qh |-> 2, rh |-> 3,
                        q |-> IF w % 2 = 0 THEN BodyOfLen(n, 7) ELSE BodyOfLen(Num(5000), 7),
                        s |-> IF w % 2 = 0 THEN BodyOfLen(Num(5000), 8) ELSE BodyOfLen(n, 8)]
              IN [mode |-> "arch", how |-> "write",
                  z |-> [k |-> z, min |-> 0, lvl |-> 1, id |-> FALSE, f |-> TRUE],
                  recs |-> <<r, [r EXCEPT !.q = BodyOfLen(Zero, 1), !.s = BodyOfLen(Num(700), 2)]>>,
                  offs |-> <<>>, pieces |-> <<>>]
Case(w) == CASE Mode = "img"    -> ImgCase(w)
             [] Mode = "limit"  -> LimCase(w)
             [] Mode = "stream" -> StreamCase(w)
             [] Mode = "sink"   -> SinkCase(w)
             [] Mode = "laid"   -> ArchCase(w, "laid")
             [] Mode = "write"  -> ArchCase(w, "write")
             [] Mode = "zip"    -> ZipCase(w)
GInit == x \in {[w |-> Seed * 3000 + k] : k \in 1..Count}
GNext == x # <<>> /\ PrintT(<<"GEN", ToJson(Case(x.w))>>) /\ x' = <<>>
=============================================================================
