------------------------------- MODULE GenCli -------------------------------
EXTENDS RecGen, TLC, Json, IOUtils
VARIABLE x
Num == atoi(IOEnv.NUM)
Seed == atoi(IOEnv.SEED)
Rec(w, k) ==
  LET kind == Pick(w, 500 + k, <<"any", "any", "any", "text", "coded", "image">>)
  IN [kind |-> kind, r |-> SmallRec(Mix(w, 510 + k) * 7 + k), z |-> Pick(w, 530 + k, <<"none", "gzip", "brotli">>)]
File(w, i) ==
  LET n == Pick(w, i, <<0, 1, 2, 3, 3, 4, 6>>)
      d == Pick(w, i + 1, <<"none", "none", "none", "none", "none", "begun", "cut", "head", "missing", "len">>)
  IN [recs |-> [k \in 1..(IF d = "missing" THEN 0 ELSE n) |-> Rec(w, i * 10 + k)], dam |-> d,
      extra |-> Rec(w, i * 10 + 9), at |-> Mix(w, i + 2) % 1000]
Sel(w) ==
  LET k == Pick(w, 20, <<"none", "index", "index", "offset", "offset", "offset", "badnum", "both", "inside">>)
      at == IF k \in {"none"} THEN 0 ELSE Mix(w, 21) % 6
  IN [k |-> k, at |-> at, count |-> Pick(w, 22, <<-1, -1, 0, 1, 1, 2, 3, 100>>), hex |-> Mix(w, 23) % 2 = 0,
      long |-> Mix(w, 24) % 2 = 0]
None == [k |-> "none", at |-> 0, count |-> -1, hex |-> FALSE, long |-> FALSE]
PartSets == <<<<>>, <<>>, <<"m">>, <<"qh">>, <<"qb">>, <<"rh">>, <<"rb">>, <<"rb", "m">>, <<"rh", "qh", "qb">>,
              <<"rb", "rh", "qb", "qh", "m">>>>
Case(w) ==
  LET nf == Pick(w, 30, <<1, 1, 1, 2, 3>>)
      sel == IF nf = 1 THEN (IF Mix(w, 31) % 5 = 0 THEN None ELSE Sel(w))
             ELSE IF Mix(w, 32) % 6 = 0 THEN Sel(w) ELSE None
  IN [files |-> [i \in 1..nf |-> File(w, 40 + 10 * i)], sel |-> sel, parts |-> Pick(w, 33, PartSets),
      c |-> Pick(w, 34, <<1, 7, 900>>),
      old |-> [k \in 1..(Mix(w, 35) % 3) |-> Rec(w, 900 + k)], newout |-> Mix(w, 36) % 2 = 0,
      z |-> Pick(w, 37, <<"P", "Z", "B">>), short |-> Mix(w, 38) % 2 = 0,
      pos |-> Pick(w, 29, <<"before", "after", "first", "last">>),
      same |-> IF Mix(w, 39) % 6 = 0 THEN Pick(w, 25, <<"same", "dot", "up", "link", "abs", "linkin", "dirlink", "hard", "hardout">>) ELSE "",
      far |-> Mix(w, 19) % 3 = 0,
      sameat |-> 1 + (Mix(w, 26) % nf),
      full |-> IF Mix(w, 27) % 5 = 0 THEN Pick(w, 28, <<0, 1, 54, 60, 200, 1000, 5000>>) ELSE -1]
GInit == x \in {[w |-> Seed * 2000 + k] : k \in 1..Num}
GNext == x # <<>> /\ PrintT(<<"GEN", ToJson(Case(x.w))>>) /\ x' = <<>>
=============================================================================
