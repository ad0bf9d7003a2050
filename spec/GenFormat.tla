----------------------------- MODULE GenFormat ------------------------------
(* Records to be written, and archives laid out here to be read. *)
EXTENDS BarcFormat, RecGen, TLC, Json, IOUtils
VARIABLE x
Seed == atoi(IOEnv.SEED)
Num == atoi(IOEnv.NUM)

NameBytes == <<45, 48, 57, 97, 98, 101, 120, 122, 33, 35, 126, 95>>
UpperBytes == <<65, 66, 69, 88, 90>>
ValBytes == <<32, 33, 44, 58, 59, 65, 97, 98, 48, 9, 126, 128, 200, 255, 34>>
EdgeBytes == <<33, 58, 65, 97, 48, 255, 128, 126>>
NameOf(w, up) == [k \in 1..Pick(w, 50, <<1, 2, 5, 12, 40>>) |->
                    IF up /\ Mix(w, 60 + k) % 3 = 0 THEN Pick(w, 70 + k, UpperBytes)
                    ELSE Pick(w, 70 + k, NameBytes)]
ValOf(w) == LET n == Pick(w, 51, <<0, 1, 2, 3, 20, 100>>) IN
            [k \in 1..n |-> IF k = 1 \/ k = n THEN Pick(w, 200 + k, EdgeBytes)
                            ELSE Pick(w, 200 + k, ValBytes)]
HdrsOf(w, up) == LET n == Pick(w, 52, <<0, 0, 1, 2, 3, 5>>) IN
  [k \in 1..n |-> <<NameOf(w + Pick(w, 400 + k, <<1, 1, 2, 3>>), up), ValOf(w * 3 + k)>>]
BodyBytes(w) == LET n == Pick(w, 53, <<0, 0, 1, 2, 3, 10, 100, 255, 256, 700, 3000>>) IN
  [k \in 1..n |-> Pick(w, 500 + (k % 37), <<10, 13, 65, 66, 0, 255, 48, 97, Mix(w, k) % 256>>)]
Rec(w, up) == [m |-> HdrsOf(w * 5 + 1, up), qh |-> HdrsOf(w * 5 + 2, up), q |-> BodyBytes(w * 5 + 3),
               rh |-> HdrsOf(w * 5 + 4, up), s |-> BodyBytes(w * 5 + 5)]
Strat(w) == LET k == Pick(w, 1, <<"none", "gzip", "brotli">>)
            IN IF k = "none" THEN [k |-> k]
               ELSE [k |-> k, min |-> 0, lvl |-> Pick(w, 2, <<0, 1, 6, 9>>), id |-> FALSE,
                     f |-> Pick(w, 3, <<TRUE, FALSE>>)]
\* To be read: plain ones are complete, others still to be compressed
Laid(w) == LET r == Rec(w, TRUE)
               z == Pick(w, 4, <<"none", "none", "gzip", "brotli">>)
               ps == PartsOf(r, z = "none")
           IN [r |-> r, z |-> z, p |-> Join(ps), h |-> HeadOf(ps, IF z = "none" THEN Len(Join(ps)) ELSE 0, z)]
Case(w) == CASE w % 3 = 0 -> [mode |-> "read", recs |-> [k \in 1..(1 + (w % 3)) |-> Laid(w * 4 + k)],
                              small |-> Pick(w, 5, <<TRUE, FALSE>>)]
             [] w % 3 = 1 -> [mode |-> "write", recs |-> [k \in 1..(1 + (w % 3)) |->
                                [r |-> Rec(w * 4 + k, FALSE), z |-> Strat(w * 4 + k),
                                 fq |-> Pick(w, 6, Forms), fs |-> Pick(w, 7, Forms)]]]
             [] OTHER -> [mode |-> "part", h |-> HdrsOf(w, FALSE), b |-> BodyBytes(w), f |-> Pick(w, 6, Forms)]
GInit == x \in {[w |-> Seed * 3000 + k] : k \in 1..Num}
GNext == x # <<>> /\ PrintT(<<"GEN", ToJson(Case(x.w))>>) /\ x' = <<>>
=============================================================================
