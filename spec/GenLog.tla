------------------------------- MODULE GenLog -------------------------------
EXTENDS Log, RecGen, TLC, Json, IOUtils
VARIABLE x
Num == atoi(IOEnv.NUM)
Seed == atoi(IOEnv.SEED)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN <<e>> \o SeqOf(S \ {e})
Targets == SeqOf(Own \cup Other)
\* Every level of message and target in some order after one set up, with
\* few other steps
Msg(w, j) ==
  LET k == (Mix(w, 3) + j * 7) % (5 * Len(Targets)) IN
  [op |-> "log", lvl |-> 1 + (k % 5), target |-> Targets[1 + (k \div 5)],
   thread |-> Pick(w, 1000 + j, <<"main", "main", "worker-1", "", "tokio-runtime-worker">>)]
Step(w, j) ==
  CASE Mix(w, 10 + j) % 40 = 0 -> [op |-> "setup", n |-> Mix(w, 200 + j) % 6]
    [] Mix(w, 10 + j) % 40 = 1 -> [op |-> "par", lvl |-> 1 + (Mix(w, 300 + j) % 5), target |-> Pick(w, 400 + j, Targets)]
    [] OTHER -> Msg(w, j)
Case(w) ==
  [env |-> Pick(w, 1, <<-1, -1, 0, 1, 2, 3, 4>>), 
   ops |-> <<IF Mix(w, 2) % 4 = 0 THEN [op |-> "test"] ELSE [op |-> "setup", n |-> Mix(w, 4) % 6]>>
           \o [j \in 1..100 |-> Step(w, j)]]
GInit == x \in {[w |-> Seed * 2000 + k] : k \in 1..Num}
GNext == x # <<>> /\ PrintT(<<"GEN", ToJson(Case(x.w))>>) /\ x' = <<>>
=============================================================================
