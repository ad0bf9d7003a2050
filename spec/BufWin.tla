------------------------------- MODULE BufWin -------------------------------
(***************************************************************************)
(* Unified buffers: each is a window <<a, b>> of the bytes (in cells) that  *)
(* one buffer was made of.  Splitting divides a window, consuming advances  *)
(* its start.  After each operation every buffer is observed as a whole.    *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Ids
VARIABLES win, ev

Gone == <<>>
Live(b) == win[b] # Gone
Left(b) == win[b][2] - win[b][1]
Cells(w) == [k \in 1..(w[2] - w[1]) |-> w[1] + k]
Part(b, n) == Cells(<<win[b][1], win[b][1] + n>>)

New(b, n) == ~Live(b) /\ win' = [win EXCEPT ![b] = <<0, n>>]

\* Past the end an advance panics, and changes nothing
Advance(b, n, r) ==
  /\ Live(b)
  /\ IF n <= Left(b) THEN r = "ok" /\ win' = [win EXCEPT ![b][1] = @ + n]
     ELSE r = "panic" /\ UNCHANGED win
\* Only if more than n remains
Split(b, j, n, r) ==
  /\ Live(b) /\ ~Live(j) /\ n > 0
  /\ IF Left(b) > n
     THEN r = "some" /\ win' = [win EXCEPT ![j] = <<win[b][1], win[b][1] + n>>, ![b][1] = @ + n]
     ELSE r = "none" /\ UNCHANGED win
\* Consuming by copy
Take(b, n, r, got) ==
  /\ Live(b)
  /\ IF n <= Left(b) THEN r = "ok" /\ got = Part(b, n) /\ win' = [win EXCEPT ![b][1] = @ + n]
     ELSE r = "panic" /\ UNCHANGED win
Into(b, got) == Live(b) /\ got = Cells(win[b]) /\ win' = [win EXCEPT ![b] = Gone]
Drop(b) == Live(b) /\ win' = [win EXCEPT ![b] = Gone]

\* Everything there is, as seen in each way a buffer can be looked at
Obs == {[b |-> b, got |-> Cells(win[b])] : b \in {x \in Ids : Live(x)}}

Init == win = [b \in Ids |-> Gone] /\ ev = [op |-> "init"]

\* Windows never overlap if they stem from one buffer
Disjoint == \A a, b \in Ids : a # b /\ Live(a) /\ Live(b) => win[a][2] <= win[b][1] \/ win[b][2] <= win[a][1]
Inv == \A b \in Ids : Live(b) => 0 <= win[b][1] /\ win[b][1] <= win[b][2]
=============================================================================
