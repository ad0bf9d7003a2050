------------------------------ MODULE GenCliRec -----------------------------
EXTENDS RecGen, TLC, Json, IOUtils
VARIABLE x
Num == atoi(IOEnv.NUM)
Seed == atoi(IOEnv.SEED)
Zs == <<"Gzip", "Deflate", "Brotli">>
NameOf(z, w) == CASE z = "Gzip" -> Pick(w, 40, <<"gzip", "x-gzip">>) [] z = "Deflate" -> "deflate" [] OTHER -> "br"
Case(w) ==
  LET z == IF Mix(w, 1) % 3 = 0 THEN "" ELSE Pick(w, 2, Zs)
      n == NameOf(z, w)
      fr == Pick(w, 3, <<"cl", "chunked", "close">>)
      cod == IF z = "" THEN Pick(w, 4, <<[te |-> <<>>, ce |-> <<>>], [te |-> <<>>, ce |-> <<>>], [te |-> <<>>, ce |-> <<<<"identity">>>>],
                                         [te |-> <<>>, ce |-> <<<<"foo">>>>], [te |-> <<>>, ce |-> <<<<"compress">>>>],
                                         [te |-> <<>>, ce |-> <<<<"gzip">>>>]>>)
             ELSE Pick(w, 5, <<[te |-> <<>>, ce |-> <<<<n>>>>], [te |-> <<>>, ce |-> <<<<n>>>>], [te |-> <<>>, ce |-> <<<<n>>>>],
                               [te |-> IF fr = "chunked" THEN <<<<n>>>> ELSE <<>>, ce |-> IF fr = "chunked" THEN <<>> ELSE <<<<n>>>>],
                               [te |-> <<>>, ce |-> <<>>], [te |-> <<>>, ce |-> <<<<Pick(w, 6, <<"gzip", "br", "compress">>)>>>>]>>)
      stop == IF Mix(w, 7) % 4 = 0 THEN Pick(w, 8, <<"short", "reset", "nohead", "badlen", "biglen", "refuse">>) ELSE "ok"
      c == Pick(w, 9, <<1, 7, 300, 10000>>)
      v0 == [j \in 1..(Mix(w, 10) % 5) |-> LET y == Mix(w, 60 + j) % 120 IN IF c > 1 /\ y < 60 THEN 202 + (y % 2) ELSE y]
      v == IF stop \in {"short", "reset"} /\ v0 = <<>> THEN <<7>> ELSE v0
  IN [p |-> [ver |-> IF fr = "chunked" THEN "HTTP/1.1" ELSE Pick(w, 11, <<"HTTP/1.1", "HTTP/1.0">>),
             status |-> Pick(w, 12, <<200, 200, 301, 404, 500>>), hv |-> [h |-> <<<<0, <<Mix(w, 13) % 5>>>>, <<3, <<1, 2>>>>>>, b |-> 0],
             fr |-> IF stop \in {"short"} /\ fr = "close" THEN "cl" ELSE IF stop \in {"badlen", "biglen"} THEN "none" ELSE fr,
             v |-> v, c |-> c, wr |-> Pick(w, 14, <<1000000, 1000, 50>>), stop |-> stop, at |-> Mix(w, 15) % 1000,
             keep |-> Mix(w, 16) % 2, z |-> z, te |-> IF stop \in {"badlen", "biglen"} THEN <<>> ELSE cod.te, ce |-> cod.ce,
             type |-> Pick(w, 17, <<"text/html", "text/html", "image/png">>),
             cut |-> Mix(w, 18) % 12 = 0, lvl |-> 1 + (Mix(w, 19) % 9)],
      o |-> [decode |-> Mix(w, 20) % 3 # 0, accept |-> Pick(w, 21, <<"", "", "*/*", "text/plain;q=0.5, application/json", "*", "image/PNG,any;level=1">>),
             z |-> Pick(w, 22, <<"P", "Z", "B">>), url |-> IF Mix(w, 23) % 20 = 0 THEN Pick(w, 24, <<"nonsense", "noscheme">>) ELSE "ok",
             file |-> IF Mix(w, 25) % 15 = 0 THEN Pick(w, 26, <<"nodir", "isdir">>) ELSE "ok",
             full |-> Mix(w, 27) % 8 = 0, room |-> Pick(w, 28, <<0, 1, 54, 60, 300, 700, 2000>>), new |-> Mix(w, 29) % 3 = 0],
      old |-> [k \in 1..(Mix(w, 30) % 3) |-> [kind |-> "any", r |-> SmallRec(Mix(w, 31) * 5 + k), z |-> Pick(w, 32 + k, <<"none", "gzip", "brotli">>)]]]
GInit == x \in {[w |-> Seed * 2000 + k] : k \in 1..Num}
GNext == x # <<>> /\ PrintT(<<"GEN", ToJson(Case(x.w))>>) /\ x' = <<>>
=============================================================================
