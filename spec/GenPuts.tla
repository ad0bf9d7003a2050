------------------------------- MODULE GenPuts ------------------------------
(* Scripts for Body that build one body of many writes of very different    *)
(* sizes, in memory, on disk or moved there part way, and then look at it    *)
(* in each way.                                                              *)
EXTENDS RecGen, TLC, Json, IOUtils
VARIABLE x
Seed == atoi(IOEnv.SEED)
Num == atoi(IOEnv.NUM)

Sizes == <<0, 1, 1, 2, 3, 5, 20, 21, 60, 130>>
RECURSIVE Total(_, _)
Total(w, k) == IF k = 0 THEN 0 ELSE Total(w, k - 1) + Pick(w, k, Sizes)
\* Contents continue from write to write, repeating after 251 cells
Put(w, k) == [op |-> Pick(w, 100 + k, <<"push", "write", "write", "save">>), i |-> 1,
              cells |-> [j \in 1..Pick(w, k, Sizes) |-> (Total(w, k - 1) + j) % 251]]
RECURSIVE Puts(_, _, _)
Puts(w, k, n) ==
  IF k > n THEN <<>>
  ELSE (IF Mix(w, 200 + k) % 6 = 0 THEN <<[op |-> "back", i |-> 1, dir |-> Mix(w, 300 + k) % 9 # 0]>> ELSE <<>>)
       \o <<Put(w, k)>> \o Puts(w, k + 1, n)
Look(w) == Pick(w, 400, <<
   <<[op |-> "out", i |-> 1]>>,
   <<[op |-> "map", i |-> 1], [op |-> "out", i |-> 1]>>,
   <<[op |-> "gather", i |-> 1], [op |-> "out", i |-> 1]>>,
   <<[op |-> "clone", i |-> 1, j |-> 2], [op |-> "gather", i |-> 1], [op |-> "out", i |-> 2], [op |-> "expl", i |-> 1]>>,
   <<[op |-> "reader", i |-> 1, r |-> 2], [op |-> "read", r |-> 2, n |-> 7], [op |-> "read", r |-> 2, n |-> 90],
     [op |-> "readall", r |-> 2]>>,
   <<[op |-> "expl", i |-> 1]>>>>)
Script(w) == [c |-> Pick(w, 500, <<1, 16, 100, 300>>), outmax |-> Pick(w, 501, <<0, 0, 13, 3000>>),
              ops |-> <<[op |-> "sink", i |-> 1, how |-> Pick(w, 502, <<"ram", "ram", "fs">>)]>>
                      \o Puts(w, 1, 2 + (Mix(w, 503) % 12))
                      \o (IF Mix(w, 504) % 2 = 0 THEN <<[op |-> "back", i |-> 1, dir |-> TRUE]>> ELSE <<>>)
                      \o <<[op |-> "prep", i |-> 1]>> \o Look(w)]
\* Thousands of small writes
Many(w) ==
  LET n == Pick(w, 600, <<1025, 2049, 4097, 5003>>)
  IN [c |-> 1, outmax |-> 0,
      ops |-> <<[op |-> "sink", i |-> 1, how |-> Pick(w, 602, <<"ram", "ram", "ram", "fs">>)],
                [op |-> Pick(w, 603, <<"push", "write", "save">>), i |-> 1, each |-> Pick(w, 604, <<1, 1, 2>>),
                 cells |-> [j \in 1..n |-> j % 251]]>>
              \o (IF Mix(w, 605) % 2 = 0 THEN <<[op |-> "back", i |-> 1, dir |-> TRUE]>> ELSE <<>>)
              \o <<[op |-> "prep", i |-> 1]>> \o Look(w)]
GInit == x \in {Many(Seed * 1000 + k) : k \in 1..(Num \div 20)} \cup {Script(Seed * 1000 + k) : k \in 1..Num}
GNext == x # <<>> /\ PrintT(<<"GEN", ToJson(x)>>) /\ x' = <<>>
=============================================================================
