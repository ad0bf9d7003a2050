------------------------------ MODULE GenDecode -----------------------------
EXTENDS Decode, RecGen, TLC, Json, IOUtils
VARIABLE x
Num == atoi(IOEnv.NUM)
Seed == atoi(IOEnv.SEED)
Zs == <<"Gzip", "Deflate", "Brotli">>
NameOf(z, w) == CASE z = "Gzip" -> Pick(w, 40, <<"gzip", "x-gzip">>) [] z = "Deflate" -> "deflate"
                  [] z = "Brotli" -> "br" [] OTHER -> "identity"
Cs == <<1, 7, 300, 5000, 40000>>
\* Stands for the largest limit that can be set
Top == 1073741824
Near(w, i, n) == LET v == n + Pick(w, i, <<-1, 0, 0, 1>>) IN IF v < 0 THEN 0 ELSE v
\* Headers which name compression z, in transfer or content encoding
Heads(w, z) ==
  LET n == NameOf(z, w) IN
  Pick(w, 50, <<[te |-> <<>>, ce |-> <<<<n>>>>],
                [te |-> <<<<"chunked">>>>, ce |-> <<<<n>>>>],
                [te |-> <<<<n, "chunked">>>>, ce |-> <<>>],
                [te |-> <<<<n>>, <<"chunked">>>>, ce |-> <<<<"compress">>>>],
                [te |-> <<<<"identity">>>>, ce |-> <<<<"deflate", n>>, <<"identity">>>>],
                [te |-> <<>>, ce |-> <<<<"foo", n>>>>]>>)
Dialog(w) ==
  LET z == Pick(w, 1, Zs)
      k == Mix(w, 2) % 20
      hd == IF k < 14 THEN Heads(w, z)
            ELSE IF k < 16 THEN [te |-> Pick(w, 3, <<<<>>, <<<<"chunked">>>>>>), ce |-> Pick(w, 4, <<<<>>, <<<<"identity">>>>, <<<<"foo">>>>>>)]
            ELSE IF k < 17 THEN [te |-> <<>>, ce |-> <<<<"compress">>>>]
            ELSE Heads(w, Pick(w, 5, Zs))
      c == Pick(w, 6, Cs)
      v == [j \in 1..(Mix(w, 7) % 6) |-> LET y == Mix(w, 60 + j) % 130 IN IF c > 1 /\ y < 60 THEN 202 + (y % 2) ELSE y]
      n == c * Len(v)
      max == CASE Mix(w, 8) % 3 = 0 -> Near(w, 9, n)
               [] Mix(w, 8) % 18 = 1 -> Top
               [] OTHER -> n + 100 + c * (Mix(w, 10) % 3)
      r0 == IF max = Top THEN Pick(w, 12, <<0, n, Top, Top>>) ELSE IF Mix(w, 11) % 2 = 0 THEN Near(w, 12, n) ELSE c * (Mix(w, 13) % 7)
      e == [y \in {"Gzip", "Deflate", "Brotli"} |-> Pick(w, 17 + (CASE y = "Gzip" -> 200 [] y = "Deflate" -> 201 [] OTHER -> 202), <<0, 1, 1, 5, 60000>>)]
      cz == LastComp(Flat(hd.te), Flat(hd.ce))
      \* The threshold, if drawn, next to the estimated length
      at == IF cz # <<>> /\ cz # <<"Compress">> /\ Mix(w, 21) % 4 = 0
            THEN <<Est([est |-> e], cz[1]), Pick(w, 22, <<-1, 0, 1>>)>> ELSE <<>>
  IN [te |-> hd.te, ce |-> hd.ce, z |-> IF Mix(w, 14) % 12 = 0 THEN "" ELSE z, v |-> v, c |-> c,
      f |-> Pick(w, 15, Forms), how |-> "intact", max |-> max, ram |-> IF r0 > max THEN max ELSE r0,
      lvl |-> Mix(w, 16) % 10, est |-> e, at |-> at, br |-> Pick(w, 18, <<1, 64, 8192>>),
      bf |-> Pick(w, 19, <<1, 100, 65536>>), dec |-> Pick(w, 20, <<<<>>, <<"Chunked">>>>)]
GInit == x \in {[w |-> Seed * 2000 + k] : k \in 1..Num}
GNext == x # <<>> /\ PrintT(<<"GEN", ToJson(Dialog(x.w))>>) /\ x' = <<>>
=============================================================================
