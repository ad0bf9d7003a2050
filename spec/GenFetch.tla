------------------------------ MODULE GenFetch ------------------------------
EXTENDS RecGen, TLC, Json, IOUtils
VARIABLE x
Num == atoi(IOEnv.NUM)
Seed == atoi(IOEnv.SEED)
AllForms == <<"slice", "ram", "gath", "fs", "back", "map", "fslice", "mslice">>
\* Names other than of framing headers
Names == <<<<>>, <<0>>, <<1>>, <<0, 1>>, <<2, 3>>, <<3, 4, 7>>, <<0, 1, 2, 3, 4, 7>>>>
Hdr(w, i) ==
  LET ns == Pick(w, i, Names)
  IN [h |-> [j \in 1..Len(ns) |-> <<ns[j], [v \in 1..(1 + (Mix(w, i + 20 * j) % 3))
                                             |-> Mix(w, i + 20 * j + v) % NVals]>>],
      b |-> Pick(w, i + 1, <<0, 0, 0, 3, 60>>)]
Val(w, i, n) == [j \in 1..n |-> Mix(w, i + j) % 120]
Req(w) ==
  LET bk == Pick(w, 1, <<"none", "none", "bytes", "image", "image", "image">>)
      bad == Mix(w, 2) % 24
  IN [bk |-> bk, f |-> IF bk = "image" THEN Pick(w, 5, AllForms) ELSE "slice",
      v |-> IF bk = "none" THEN <<>> ELSE Val(w, 200, Mix(w, 3) % 5),
      c |-> Pick(w, 6, <<1, 7, 3000, 40000>>),
      m |-> IF bad = 0 THEN -1 ELSE Mix(w, 7) % 6, u |-> IF bad = 1 THEN -1 ELSE Mix(w, 8) % 6,
      h |-> IF bad = 2 THEN "bad" ELSE "ok", hv |-> Hdr(w, 1000),
      ty |-> Pick(w, 9, <<"direct", "permit", "dispatch", "hyper", "hyper">>),
      bt |-> Pick(w, 30, <<"bytes", "uni">>), item |-> Pick(w, 31, <<64, 1024, 524288>>)]
\* Stands for the largest limit that can be set
Top == 1073741824
Near(w, i, n) == LET v == n + Pick(w, i, <<-1, 0, 0, 1>>) IN IF v < 0 THEN 0 ELSE v
Stops == <<"ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "short", "short", "reset", "nohead",
           "stallhead", "stallbody", "drip", "badlen">>
Case(w) ==
  LET q == Req(w)
      c == Pick(w, 40, <<1, 7, 3000, 40000, 100000>>)
      v0 == Val(w, 300, Mix(w, 41) % 5)
      st0 == IF Mix(w, 42) % 3 = 0 THEN Pick(w, 43, Stops) ELSE "ok"
      fr0 == Pick(w, 44, <<"cl", "cl", "chunked", "chunked", "close", "none">>)
      status == IF st0 # "ok" THEN 200 ELSE Pick(w, 45, <<200, 200, 200, 200, 201, 204, 301, 304, 404, 500, 599>>)
      \* Framing and body by which the stop makes sense
      fr1 == CASE st0 = "short" -> Pick(w, 46, <<"cl", "chunked">>)
               [] st0 \in {"reset", "stallbody"} -> Pick(w, 46, <<"cl", "chunked", "close">>)
               [] st0 = "drip" -> Pick(w, 46, <<"chunked", "close">>)
               [] st0 = "badlen" -> "none"
               [] OTHER -> fr0
      fr == IF status \in {204, 304} THEN "none" ELSE fr1
      v == IF st0 \in {"short", "reset", "stallbody", "drip"} /\ v0 = <<>> THEN <<5>> ELSE v0
      \* A pause that only the other timeout would not allow, or both timeouts set
      slow == CASE st0 = "ok" /\ Mix(w, 61) % 80 = 0 -> Pick(w, 62, <<"head", "body", "body">>)
                [] st0 \in {"stallbody", "drip"} /\ Mix(w, 61) % 4 = 0 -> "both"
                [] OTHER -> ""
      n == Len(v) * c
      max == CASE Mix(w, 47) % 3 = 0 -> Near(w, 48, n)
               [] Mix(w, 47) % 12 = 1 -> Top
               [] OTHER -> n + 100000
      r0 == IF max = Top THEN Pick(w, 50, <<0, n, Top, Top>>) ELSE IF Mix(w, 49) % 2 = 0 THEN Near(w, 50, n) ELSE c * (Mix(w, 51) % 6)
  IN [q |-> IF st0 \in {"short", "reset", "stallbody", "drip"} /\ q.m = 3 THEN [q EXCEPT !.m = 0] ELSE q,
      p |-> [ver |-> IF fr = "chunked" THEN "HTTP/1.1" ELSE Pick(w, 52, <<"HTTP/1.1", "HTTP/1.1", "HTTP/1.0">>),
             status |-> status, hv |-> Hdr(w, 3000), fr |-> fr, v |-> v, c |-> c,
             wr |-> Pick(w, 53, <<1000000, 1000000, 1000, 50>>), stop |-> st0,
             at |-> Mix(w, 54) % 1000, keep |-> Mix(w, 55) % 2, delay |-> Pick(w, 56, <<0, 0, 0, 0, 0, 20>>),
             slow |-> slow],
      t |-> [max |-> max, ram |-> IF r0 > max THEN max ELSE r0,
             res |-> CASE st0 = "stallhead" -> 120 [] slow \in {"body", "both"} -> 2000 [] OTHER -> 0,
             body |-> CASE slow = "both" -> 2000 [] st0 \in {"stallbody", "drip"} -> 200
                        [] slow = "head" -> 1500 [] OTHER -> 0,
             nodir |-> Mix(w, 57) % 15 = 0, pol |-> Pick(w, 58, <<"direct", "permit", "dispatch">>),
             via |-> Pick(w, 59, <<"client", "client", "fetch">>), set |-> Mix(w, 60) % 3]]
GInit == x \in {[w |-> Seed * 2000 + k] : k \in 1..Num}
GNext == x # <<>> /\ PrintT(<<"GEN", ToJson(Case(x.w))>>) /\ x' = <<>>
=============================================================================
