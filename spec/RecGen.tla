------------------------------- MODULE RecGen -------------------------------
(* Records, strategies and limits as functions of a number drawn, so that a *)
(* drawn value is the same wherever it is used.                             *)
EXTENDS Integers, Sequences

NVals == 13
NoHdr == [h |-> <<>>, b |-> 0]
B(f, v) == [f |-> f, v |-> v]

Mix1(a) == (a * a + a * 17 + 5) % 45989
Mix(w, i) == Mix1((Mix1((w + i * 7919) % 45989) + (w \div 45989) * 131 + i) % 45989)
Pick(w, i, s) == s[1 + (Mix(w, i) % Len(s))]

Forms == <<"slice", "ram", "fs", "back", "map", "fslice", "mslice">>
StratOf(w) ==
  LET k == Pick(w, 1, <<"none", "gzip", "brotli">>) IN
  IF k = "none" THEN [k |-> k]
  ELSE [k |-> k, min |-> Pick(w, 2, <<0, 0, 1500>>), lvl |-> Pick(w, 3, <<0, 1, 6, 9>>),
        id |-> Pick(w, 4, <<TRUE, FALSE>>), f |-> Pick(w, 5, <<TRUE, FALSE>>)]
\* Header blocks: increasing names, each with one or more values
NameSets == <<<<>>, <<0>>, <<1>>, <<0, 1>>, <<2, 3>>, <<3, 4, 7>>, <<0, 1, 2, 3, 4, 5, 6, 7>>>>
Bulk == <<0, 0, 0, 0, 1, 40, 127, 128, 129, 1000>>
HdrOf(w, i) ==
  LET ns == Pick(w, i, NameSets)
  IN [h |-> [j \in 1..Len(ns) |-> <<ns[j], [v \in 1..(1 + (Mix(w, i + 20 * j) % 4))
                                             |-> Mix(w, i + 20 * j + v) % NVals]>>],
      b |-> Pick(w, i + 1, Bulk)]
BodyOf(w, i) ==
  B(Pick(w, i, Forms), [j \in 1..(Mix(w, i + 1) % 5) |->
       LET v == Mix(w, i + 1 + j) % 130 IN IF v < 12 THEN 200 + (v % 4) ELSE v])
\* Nothing but at most one header, or one body of few cells
TinyRec(w) ==
  LET hd == [h |-> <<<<0, <<Mix(w, 7) % NVals>>>>>>, b |-> 0]
      e == B("slice", <<>>)
      z == [m |-> NoHdr, qh |-> NoHdr, qb |-> e, rh |-> NoHdr, rb |-> e]
  IN Pick(w, 8, <<z, [z EXCEPT !.m = hd], [z EXCEPT !.qh = hd], [z EXCEPT !.rh = hd],
                  [z EXCEPT !.qb = BodyOf(w, 3000)], [z EXCEPT !.rb = BodyOf(w, 5000)]>>)
RecOf(w) == IF Mix(w, 6) % 5 = 0 THEN TinyRec(w)
            ELSE [m |-> HdrOf(w, 1000), qh |-> HdrOf(w, 2000), qb |-> BodyOf(w, 3000),
                  rh |-> HdrOf(w, 4000), rb |-> BodyOf(w, 5000)]
LimitOf(w) ==
  IF Mix(w, 9) % 8 = 0 THEN [k |-> 100, d |-> 4096, mk |-> 1000, md |-> 5000, br |-> 8192, bf |-> 65536]
  ELSE [k |-> Mix(w, 1) % 5, d |-> (Mix(w, 2) % 5) - 1, mk |-> Pick(w, 3, <<0, 1, 2, 3, 9, 9, 9>>),
        md |-> Pick(w, 4, <<-1, 0>>), br |-> Pick(w, 5, <<64, 8192>>), bf |-> Pick(w, 6, <<64, 65536>>)]

\* A record with few headers and short bodies
FewHdr(w, i) == [HdrOf(w, i) EXCEPT !.b = Pick(w, i + 1, <<0, 0, 1, 2>>)]
SmallRec(w) == [m |-> FewHdr(w, 1000), qh |-> FewHdr(w, 2000), qb |-> BodyOf(w, 3000),
                rh |-> FewHdr(w, 4000), rb |-> BodyOf(w, 5000)]
=============================================================================
