------------------------------ MODULE GenExch -------------------------------
EXTENDS RecGen, TLC, Json, IOUtils
VARIABLE x
Num == atoi(IOEnv.NUM)
Seed == atoi(IOEnv.SEED)
AllForms == <<"slice", "ram", "gath", "fs", "fs", "back", "map", "fslice", "mslice">>
Val(w, i, n) == [j \in 1..n |-> Mix(w, i + j) % 120]
Near(w, i, n) == LET v == n + Pick(w, i, <<-1, 0, 0, 1>>) IN IF v < 0 THEN 0 ELSE v
Max(w, i, n) == IF Mix(w, i) % 6 = 0 THEN Near(w, i + 1, n) ELSE 10000000
Ram(w, i, n, max) == LET r == Pick(w, i, <<0, n \div 2, n \div 2, n>>) IN IF r > max THEN max ELSE r
Types == <<"direct", "permit", "permit", "dispatch", "dispatch">>
Buf(w, i) == Pick(w, i, <<"bytes", "uni">>)
Item(w, i, c) == Pick(w, i, <<c \div 3 + 1, c, 2 * c + 1, 65536>>)
One(w, c) ==
  LET v == Val(w, 100, Mix(w, 1) % 4)
      a == Val(w, 200, Mix(w, 2) % 4)
      echo == Mix(w, 3) % 3 # 0
      ans == IF echo THEN v ELSE a
      smax == Max(w, 4, Len(v) * c)
      cmax == Max(w, 6, Len(ans) * c)
  IN [v |-> v, w |-> a, c |-> c, echo |-> echo, smax |-> smax, cmax |-> cmax,
      die |-> Mix(w, 8) % 15 = 0, quit |-> Mix(w, 9) % 5 = 0, after |-> Pick(w, 10, <<0, 40, 150, 400, 1000, 3000>>),
      f |-> Pick(w, 11, AllForms), g |-> Pick(w, 12, AllForms),
      \* The client's stream, the server's sink and stream, and the client's policy
      up |-> Pick(w, 13, <<"hyper", "direct", "permit", "permit", "dispatch", "dispatch">>), upb |-> Buf(w, 14),
      upi |-> Item(w, 15, c), sink |-> Pick(w, 16, Types), sinkb |-> Buf(w, 17),
      down |-> Pick(w, 18, Types \o <<"split", "yield">>), downb |-> Buf(w, 19), downi |-> Item(w, 20, c),
      map |-> Mix(w, 21) % 4 = 0, pol |-> Pick(w, 22, Types),
      sram |-> Ram(w, 23, Len(v) * c, smax), cram |-> Ram(w, 24, Len(ans) * c, cmax)]
Case(w) ==
  LET c == Pick(w, 1, <<11, 1000, 1000, 30000, 100000>>)
  IN [c |-> c, permits |-> Pick(w, 2, <<1, 1, 2, 3>>), pool |-> Pick(w, 3, <<1, 1, 2>>),
      workers |-> Pick(w, 4, <<1, 2, 4>>), clients |-> Pick(w, 5, <<1, 2>>),
      qs |-> [k \in 1..(1 + (Mix(w, 6) % 12)) |-> One(w * 13 + k, c)]]
GInit == x \in {[w |-> Seed * 2000 + k] : k \in 1..Num}
GNext == x # <<>> /\ PrintT(<<"GEN", ToJson(Case(x.w))>>) /\ x' = <<>>
=============================================================================
