------------------------------- MODULE GenTune ------------------------------
EXTENDS Tune, TLC, Json
CONSTANTS Depth
VARIABLE h
Big == 0..6
SetsB == [ram |-> Big, max |-> Big, br |-> 0..5, bf |-> 0..5, sd |-> 0..5, sg |-> 0..5, sb |-> 0..5, dir |-> 0..2]
SetsF == [item |-> 0..5, res |-> -1..4, body |-> -1..4, pol |-> 0..3]
R(ok) == IF ok THEN "ok" ELSE "refused"
Step ==
  \/ \E k \in DOMAIN SetsB : \E v \in SetsB[k] : SetB(k, v, R(Accepts(k, v))) /\ ev' = [op |-> "setb", k |-> k, v |-> v]
  \/ \E k \in DOMAIN SetsF : \E v \in SetsF[k] : SetF(k, v, R(Accepts(k, v))) /\ ev' = [op |-> "setf", k |-> k, v |-> v]
  \/ \E x \in 1..12 : FinishB(R(BValid), b) /\ ev' = [op |-> "finb"]
  \/ \E x \in 1..12 : FinishF(R(FValid), f, img) /\ ev' = [op |-> "finf"]
  \/ \E x \in 1..4 : \E i \in 1..Len(snaps) : Image(i) /\ ev' = [op |-> "image", i |-> i]
  \/ \E i \in 1..Len(snaps) : Look(i, snaps[i].b, snaps[i].f) /\ ev' = [op |-> "look", i |-> i]
  \/ ResetB /\ ev' = [op |-> "resetb"]
  \/ ResetF /\ ev' = [op |-> "resetf"]
GInit == Init /\ h = <<>>
SimNext == \/ Len(h) < Depth /\ Step /\ h' = Append(h, ev')
           \/ /\ Len(h) = Depth /\ PrintT(<<"GEN", ToJson(h)>>)
              /\ h' = Append(h, ev) /\ UNCHANGED <<b, f, img, snaps, ev>>
=============================================================================
