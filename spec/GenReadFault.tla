---------------------------- MODULE GenReadFault ----------------------------
EXTENDS RecGen, TLC, Json, IOUtils
VARIABLE x
Num == atoi(IOEnv.NUM)
Seed == atoi(IOEnv.SEED)
Case(w) ==
  LET n == 1 + (Mix(w, 1) % 3) IN
  [c |-> Pick(w, 2, <<1, 40, 700, 6000, 30000>>),
   recs |-> [k \in 1..n |-> [c |-> SmallRec(w * 5 + k), z |-> StratOf(w * 7 + k)]],
   k |-> 1 + (Mix(w, 3) % (n + 1)), mr |-> Pick(w, 4, <<0, 1, 3000, 8192, 20000, 1000000>>),
   br |-> Pick(w, 5, <<1, 64, 8192>>), bf |-> Pick(w, 6, <<64, 65536>>),
   again |-> Pick(w, 7, <<TRUE, FALSE>>), fix |-> Mix(w, 8)]
GInit == x \in {[w |-> Seed * 2000 + k] : k \in 1..Num}
GNext == x # <<>> /\ PrintT(<<"GEN", ToJson(Case(x.w))>>) /\ x' = <<>>
=============================================================================
