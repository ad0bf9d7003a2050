------------------------------ MODULE GenHist -------------------------------
(* Scripts for histories of an archive: which records are written, how      *)
(* writer and reader take turns at system calls, where a write fails, and   *)
(* what threads sharing a handle do.                                        *)
EXTENDS RecGen, TLC, Json, IOUtils
VARIABLE x
Seed == atoi(IOEnv.SEED)
Num == atoi(IOEnv.NUM)
Mode == IOEnv.MODE

Tagged(k, r) == [r EXCEPT !.m = [h |-> <<<<0, <<10 + k>>>>>>, b |-> 0]]
Recs(w, n) == [k \in 1..n |-> [c |-> Tagged(k, SmallRec(w * 7 + k)), z |-> StratOf(w * 5 + k)]]
Cells == <<1, 7, 40, 700, 5000, 40000>>

\* Heads are written and read up to this many bytes at once, 0 for all
CutOf(w, k) == Pick(w, k, <<0, 1 + (Mix(w, k + 1) % 53), 18 + (Mix(w, k + 1) % 4), 27>>)
Probe(w) == [mode |-> "probe", c |-> Pick(w, 11, Cells), half |-> Pick(w, 12, <<TRUE, FALSE>>),
             cut |-> CutOf(w, 16), recs |-> Recs(w, 3)]
Faults(w) == [mode |-> "faults", c |-> Pick(w, 11, <<1, 40, 700, 5000, 5000>>), recs |-> Recs(w, 3),
              at |-> Mix(w, 13) % 3, every |-> 1, seed |-> w]
Threads(w) == [mode |-> "threads", c |-> Pick(w, 11, <<1, 40, 5000>>), recs |-> Recs(w, 12),
               threads |-> 2 + (Mix(w, 14) % 3), hold |-> 1 + (Mix(w, 15) % 3),
               readers |-> 2, cuts |-> Pick(w, 17, <<TRUE, FALSE>>), seed |-> w]
\* Who runs up to which of its own system calls (0: to its end)
Seg(r, n) == [r |-> r, n |-> n]
SegsOf(w) ==
  LET i == 1 + (Mix(w, 21) % 22)   j == 1 + (Mix(w, 22) % 22)
      i2 == i + 1 + (Mix(w, 23) % 12)   j2 == j + 1 + (Mix(w, 24) % 8)
  IN Pick(w, 25, <<<<Seg(0, i), Seg(1, j), Seg(0, i2), Seg(1, 0), Seg(0, 0)>>,
                   <<Seg(0, i), Seg(1, j), Seg(0, i2), Seg(1, j2), Seg(0, 0), Seg(1, 0)>>,
                   <<Seg(1, j), Seg(0, i), Seg(1, 0), Seg(0, 0)>>,
                   <<Seg(1, j), Seg(0, i), Seg(1, j2), Seg(0, 0), Seg(1, 0)>>,
                   <<Seg(0, i), Seg(1, j), Seg(0, 0), Seg(1, 0)>>>>)
\* Few headers, so that a record takes few calls
TurnRec(k, f, g) == [m |-> [h |-> <<<<0, <<10 + k>>>>>>, b |-> 0], qh |-> NoHdr, qb |-> B(f, <<k>>),
                     rh |-> NoHdr, rb |-> B(g, <<k + 3, k + 5>>)]
TurnRecs(z) == <<[c |-> TurnRec(1, "slice", "ram"), z |-> [k |-> "none"]],
                 [c |-> TurnRec(2, "ram", "slice"), z |-> z]>>
TurnZ == <<[k |-> "none"], [k |-> "gzip", min |-> 0, lvl |-> 1, id |-> FALSE, f |-> TRUE],
           [k |-> "brotli", min |-> 0, lvl |-> 1, id |-> FALSE, f |-> TRUE]>>
Turns(w) == [mode |-> "turns", c |-> 40, recs |-> TurnRecs(Pick(w, 31, TurnZ)), segs |-> SegsOf(w),
             small |-> Pick(w, 32, <<TRUE, FALSE>>), ahead |-> Pick(w, 33, <<TRUE, TRUE, FALSE>>),
             cutw |-> CutOf(w, 34), cutr |-> CutOf(w, 36)]

\* Lock scripts: any order of asking, writing and releasing
LockOps == [op : {"try"}, t : 1..3] \cup {[op |-> "write"], [op |-> "rel"]}
Lock(w) == [mode |-> "locked", c |-> 40, threads |-> 3, recs |-> Recs(w, 5),
            ops |-> [k \in 1..14 |->
                      LET v == Mix(w, 100 + k) % 10 IN
                      IF v < 5 THEN [op |-> "try", t |-> 1 + (Mix(w, 300 + k) % 3)]
                      ELSE IF v < 8 THEN [op |-> "write"] ELSE [op |-> "rel"]]]

GInit == x \in CASE Mode = "probe"  -> {Probe(Seed * 1000 + k) : k \in 1..Num}
                 [] Mode = "faults" -> {Faults(Seed * 1000 + k) : k \in 1..Num}
                 [] Mode = "threads" -> {Threads(Seed * 1000 + k) : k \in 1..Num}
                 [] Mode = "locked" -> {Lock(Seed * 1000 + k) : k \in 1..Num}
                 [] Mode = "turns"  -> {Turns(Seed * 20000 + k) : k \in 1..Num}
GNext == x # <<>> /\ PrintT(<<"GEN", ToJson(x)>>) /\ x' = <<>>
=============================================================================
