------------------------------- MODULE GenBuf -------------------------------
EXTENDS BufWin, TLC, Json
CONSTANTS N, Depth
VARIABLE h
\* The smallest free id
Free == {j \in Ids : ~Live(j) /\ \A k \in Ids : k < j => Live(k)}
Start == ev.op = "init" /\ New(1, N) /\ ev' = [op |-> "new", b |-> 1, n |-> N]
Step == ev.op # "init" /\
  \E b \in Ids : Live(b) /\
    \/ \E n \in 0..(N + 1) :
         \/ Advance(b, n, IF n <= Left(b) THEN "ok" ELSE "panic") /\ ev' = [op |-> "adv", b |-> b, n |-> n]
         \/ \E j \in Free : Split(b, j, n, IF Left(b) > n THEN "some" ELSE "none")
                            /\ ev' = [op |-> "split", b |-> b, j |-> j, n |-> n]
         \/ \E how \in {"slice", "bytes"} :
              /\ Take(b, n, IF n <= Left(b) THEN "ok" ELSE "panic", IF n <= Left(b) THEN Part(b, n) ELSE <<>>)
              /\ ev' = [op |-> "take", how |-> how, b |-> b, n |-> n]
    \/ Into(b, Cells(win[b])) /\ ev' = [op |-> "into", b |-> b]
    \/ Drop(b) /\ ev' = [op |-> "drop", b |-> b]
GInit == Init /\ h = <<>>
View == <<win, ev.op = "init">>
EdgeNext == (Start \/ Step) /\ UNCHANGED h
Edge == PrintT(<<"EDGE", ToJson(View), ToJson(ev'), ToJson(View')>>)
SimNext == \/ Len(h) < Depth /\ (Start \/ Step) /\ h' = Append(h, ev')
           \/ /\ h # <<>> /\ Len(h) <= Depth /\ (Len(h) = Depth \/ ~ENABLED Step) /\ PrintT(<<"GEN", ToJson(h)>>)
              /\ h' = [k \in 1..(Depth + 1) |-> 0] /\ UNCHANGED <<win, ev>>
=============================================================================
