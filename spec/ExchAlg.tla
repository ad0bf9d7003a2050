------------------------------ MODULE ExchAlg -------------------------------
(* How exchanges share permits: each end asks for a permit, in turn, for a  *)
(* single blocking step on one item, and returns it before handing the item *)
(* on through a channel with place for one.  A client reads items and sends *)
(* them, the server takes each in, and then reads and sends its answer,     *)
(* which the client takes in.  With Over, a permit is returned only after   *)
(* the item was handed on, which lets everyone wait for everyone else.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Ex,       \* exchanges
          Items,    \* items each way
          K,        \* permits
          Over,     \* hold a permit over the hand-on?
          Quits     \* exchanges whose client may give up
VARIABLES st,       \* exchange -> end -> state: idle, wait, have, hand, done
          n,        \* exchange -> end -> items so far, sent and taken in
          ch,       \* exchange -> content of channel to server, to client
          free,     \* permits available
          line      \* ends waiting for permits, in turn
vars == <<st, n, ch, free, line>>

Ends == {"cread", "swrite", "sread", "cwrite"}
To(e) == IF e \in {"cread", "swrite"} THEN "up" ELSE "down"
Reads(e) == e \in {"cread", "sread"}
AInit ==
  /\ st = [x \in Ex |-> [e \in Ends |-> "idle"]] /\ n = [x \in Ex |-> [e \in Ends |-> 0]]
  /\ ch = [x \in Ex |-> [d \in {"up", "down"} |-> <<>>]] /\ free = K /\ line = <<>>

\* Work for an end: something to read (the server only after all was taken
\* in), or an item to take in
Work(x, e) ==
  /\ n[x][e] < Items
  /\ CASE e = "cread" -> TRUE
       [] e = "sread" -> n[x]["swrite"] = Items /\ st[x]["swrite"] = "idle"
       [] OTHER       -> ch[x][To(e)] # <<>>
Set(x, e, s) == st' = [st EXCEPT ![x][e] = s]
\* Give one back: to the next in line, or to those free
Give == IF line = <<>> THEN free' = free + 1 /\ UNCHANGED line
        ELSE line' = Tail(line) /\ UNCHANGED free
Ask(x, e) ==
  /\ st[x][e] = "idle" /\ Work(x, e)
  /\ IF free > 0 THEN free' = free - 1 /\ Set(x, e, "have") /\ UNCHANGED line
     ELSE line' = Append(line, <<x, e>>) /\ Set(x, e, "wait") /\ UNCHANGED free
  /\ UNCHANGED <<n, ch>>
\* States with the permit, if any given back by x, e, passed to the next
Passed(s) == IF line = <<>> THEN s ELSE [s EXCEPT ![line[1][1]][line[1][2]] = "have"]
Step(x, e) ==
  /\ st[x][e] = "have"
  /\ IF Reads(e)
     THEN /\ IF Over THEN Set(x, e, "hand") /\ UNCHANGED <<free, line>>
             ELSE st' = Passed([st EXCEPT ![x][e] = "hand"]) /\ Give
          /\ UNCHANGED <<n, ch>>
     ELSE /\ ch[x][To(e)] # <<>>
          /\ ch' = [ch EXCEPT ![x][To(e)] = Tail(@)] /\ n' = [n EXCEPT ![x][e] = @ + 1]
          /\ st' = Passed([st EXCEPT ![x][e] = "idle"]) /\ Give
Hand(x, e) ==
  /\ st[x][e] = "hand" /\ ch[x][To(e)] = <<>>
  /\ ch' = [ch EXCEPT ![x][To(e)] = Append(@, n[x][e] + 1)] /\ n' = [n EXCEPT ![x][e] = @ + 1]
  /\ IF Over THEN st' = Passed([st EXCEPT ![x][e] = "idle"]) /\ Give
     ELSE Set(x, e, "idle") /\ UNCHANGED <<free, line>>
\* The client goes away: all of the exchange's ends stop, wherever they are,
\* and what these hold or wait for is given up
Held(x) == {e \in Ends : st[x][e] = "have" \/ (Over /\ st[x][e] = "hand")}
Others(x) == SelectSeq(line, LAMBDA p : p[1] # x)
Least(a, b) == IF a < b THEN a ELSE b
Quit(x) ==
  /\ x \in Quits /\ \E e \in Ends : st[x][e] # "done"
  /\ LET h == Cardinality(Held(x))
         m == Least(h, Len(Others(x)))
         gone == [st EXCEPT ![x] = [e \in Ends |-> "done"]]
         next == {Others(x)[k] : k \in 1..m}
     IN /\ st' = [y \in Ex |-> [e \in Ends |-> IF <<y, e>> \in next THEN "have" ELSE gone[y][e]]]
        /\ line' = SubSeq(Others(x), m + 1, Len(Others(x))) /\ free' = free + h - m
  /\ ch' = [ch EXCEPT ![x] = [d \in {"up", "down"} |-> <<>>]]
  /\ n' = [n EXCEPT ![x] = [e \in Ends |-> Items]]
ANext == \E x \in Ex : Quit(x) \/ \E e \in Ends : Ask(x, e) \/ Step(x, e) \/ Hand(x, e)
ASpec == AInit /\ [][ANext]_vars /\ \A x \in Ex, e \in Ends :
            WF_vars(Ask(x, e)) /\ WF_vars(Step(x, e)) /\ WF_vars(Hand(x, e))

Finished == \A x \in Ex, e \in Ends : n[x][e] = Items /\ st[x][e] \in {"idle", "done"}
\* Items arrive in order, none lost
Order == \A x \in Ex, d \in {"up", "down"} :
  /\ Len(ch[x][d]) <= 1
  /\ ch[x][d] # <<>> => ch[x][d][1] = 1 + n[x][IF d = "up" THEN "swrite" ELSE "cwrite"]
Conserved == free + Cardinality({<<x, e>> \in Ex \X Ends : e \in Held(x)}) = K
\* Nobody waits while a permit is free
Useful == line # <<>> => free = 0
Stuck == (~ENABLED ANext) => (Finished /\ free = K)
Ends2 == <>Finished
=============================================================================
