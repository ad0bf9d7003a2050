----------------------------- MODULE BarcWrite ------------------------------
(* The write and read protocols step by step, against the guarantees of     *)
(* ArcHist.  The file is a sequence of cells.  A head is three of these:     *)
(* lengths on both sides of the type, which is "R" until the record is       *)
(* complete, when it is replaced last.  Only a single cell is read or        *)
(* written at once, everything else interleaves: a reader may find some of   *)
(* a head before and some after it was written.  A step of the writer may    *)
(* fail, upon which the file is cut back; the writer may stop for good at    *)
(* any step.                                                                 *)
EXTENDS ArcHist
CONSTANTS Payload,     \* cells of a record's payload
          MayFail, MayCrash,
          Twice,       \* a head is read again once its type was found
          Last         \* the type is written last

VARIABLES file, pc, start, cur, rpos, rids, rpc, rbuf, roffs, crashed, bad
vars == <<hist, file, pc, start, cur, rpos, rids, rpc, rbuf, roffs, crashed, bad>>
wv == <<file, pc, start, cur>>
rv == <<rpos, rids, rpc, rbuf, roffs>>

Size == 3
Reserve == <<[k |-> "L", i |-> 0], [k |-> "R", i |-> 0], [k |-> "S", i |-> 0]>>
HeadOf(i) == <<[k |-> "L", i |-> i], [k |-> "D", i |-> 0], [k |-> "S", i |-> i]>>
Cell(i, n) == [k |-> "P", i |-> i, n |-> n]

AInit == /\ HInit
         /\ file = <<>> /\ crashed = FALSE /\ bad = FALSE
         /\ pc = [t \in Threads |-> "idle"] /\ start = [t \in Threads |-> 0]
         /\ cur = [t \in Threads |-> 0]
         /\ rpos = [r \in Scans |-> 0] /\ rids = [r \in Scans |-> <<>>]
         /\ roffs = [r \in Scans |-> <<>>]
         /\ rpc = [r \in Scans |-> "off"] /\ rbuf = [r \in Scans |-> <<>>]

Judged(ok) == bad' = (bad \/ ~ok)
Put(f, p, x) == IF p <= Len(f) THEN [f EXCEPT ![p] = x] ELSE Append(f, x)

WLock(t) == /\ pc[t] = "idle" /\ holder = 0
            /\ pc' = [pc EXCEPT ![t] = "locked"]
            /\ Judged(CanAcq(t)) /\ Acq(t)
            /\ UNCHANGED <<file, start, cur, rv, crashed>>
WBegin(t, i) == /\ pc[t] = "locked" /\ Begin(t, i)
                /\ \A j \in Ids : j < i => j \in begun \cup ended \cup failed
                /\ cur' = [cur EXCEPT ![t] = i]
                /\ start' = [start EXCEPT ![t] = Len(file)]
                /\ pc' = [pc EXCEPT ![t] = "reserve"]
                /\ UNCHANGED <<file, rv, crashed, bad>>
WReserve(t) == /\ pc[t] = "reserve"
               /\ LET n == Len(file) - start[t] IN
                  IF n < Size
                  THEN file' = Append(file, Reserve[n + 1]) /\ UNCHANGED pc
                  ELSE pc' = [pc EXCEPT ![t] = "payload"] /\ UNCHANGED file
               /\ UNCHANGED <<hist, start, cur, rv, crashed, bad>>
WPayload(t) == /\ pc[t] = "payload"
               /\ LET n == Len(file) - start[t] - Size + 1 IN
                  IF n <= Payload
                  THEN file' = Append(file, Cell(cur[t], n)) /\ UNCHANGED pc
                  ELSE pc' = [pc EXCEPT ![t] = "head"] /\ UNCHANGED file
               /\ UNCHANGED <<hist, start, cur, rv, crashed, bad>>
\* The lengths, then the type
HeadSteps == IF Last THEN <<"head", "head3", "head2">> ELSE <<"head", "head2", "head3">>
HeadAt(s) == CASE s = "head" -> 1 [] s = "head2" -> 2 [] OTHER -> 3
After1(s) == LET k == CHOOSE k \in 1..3 : HeadSteps[k] = s
             IN IF k = 3 THEN "done" ELSE HeadSteps[k + 1]
WHead(t) == /\ pc[t] \in {"head", "head2", "head3"}
            /\ file' = Put(file, start[t] + HeadAt(pc[t]), HeadOf(cur[t])[HeadAt(pc[t])])
            /\ pc' = [pc EXCEPT ![t] = After1(@)]
            /\ UNCHANGED <<hist, start, cur, rv, crashed, bad>>
WDone(t) == /\ pc[t] = "done"
            /\ Judged(CanEnd(cur[t], TRUE, start[t], FALSE))
            /\ End(t, cur[t], TRUE, start[t], FALSE)
            /\ pc' = [pc EXCEPT ![t] = "locked"]
            /\ UNCHANGED <<file, start, cur, rv, crashed>>
\* Cut back, then report
WFail(t) == /\ MayFail /\ pc[t] \in {"reserve", "payload", "head"}
            /\ file' = SubSeq(file, 1, start[t])
            /\ pc' = [pc EXCEPT ![t] = "failed"]
            /\ UNCHANGED <<hist, start, cur, rv, crashed, bad>>
WFailed(t) == /\ pc[t] = "failed"
              /\ Judged(CanEnd(cur[t], FALSE, 0, TRUE))
              /\ End(t, cur[t], FALSE, 0, TRUE)
              /\ pc' = [pc EXCEPT ![t] = "locked"]
              /\ UNCHANGED <<file, start, cur, rv, crashed>>
WUnlock(t) == /\ pc[t] = "locked" /\ Rel(t)
              /\ pc' = [pc EXCEPT ![t] = "idle"]
              /\ UNCHANGED <<file, start, cur, rv, crashed, bad>>
Crash == /\ MayCrash /\ ~crashed /\ crashed' = TRUE
         /\ UNCHANGED <<hist, wv, rv, bad>>

\* A scan: head, payload cells one at a time, next head, ...
RStart(r) == /\ rpc[r] = "off" /\ ScanStart(r)
             /\ rpc' = [rpc EXCEPT ![r] = "head"]
             /\ UNCHANGED <<wv, rpos, rids, rbuf, roffs, crashed, bad>>
Finish(r, end) == /\ Judged(CanScan(r, rids[r], roffs[r], end))
                  /\ IF CanScan(r, rids[r], roffs[r], end)
                     THEN ScanDone(r, rids[r], roffs[r], end) ELSE UNCHANGED hist
                  /\ rpc' = [rpc EXCEPT ![r] = "over"]
                  /\ UNCHANGED <<wv, rpos, rids, rbuf, roffs, crashed>>
IsReserve(h) == IsPrefix(h, Reserve)
RHead(r) == /\ rpc[r] \in {"head", "again"}
            /\ LET h == rbuf[r]
                   p == rpos[r] + Len(h) + 1 IN
               IF Len(h) < Size
               THEN IF p > Len(file) THEN Finish(r, IF IsReserve(h) THEN "none" ELSE "err")
                    ELSE /\ rbuf' = [rbuf EXCEPT ![r] = Append(@, file[p])]
                         /\ UNCHANGED <<hist, wv, rpos, rids, rpc, roffs, crashed, bad>>
               ELSE IF h[2].k = "R" THEN Finish(r, "none")
               ELSE IF h[2].k # "D" THEN Finish(r, "err")
               ELSE IF Twice /\ rpc[r] = "head"
               THEN /\ rpc' = [rpc EXCEPT ![r] = "again"]
                    /\ rbuf' = [rbuf EXCEPT ![r] = <<>>]
                    /\ UNCHANGED <<hist, wv, rpos, rids, roffs, crashed, bad>>
               ELSE IF h[1].i = 0 \/ h[1].i # h[3].i THEN Finish(r, "err")
               ELSE /\ rpc' = [rpc EXCEPT ![r] = "body"]
                    /\ rbuf' = [rbuf EXCEPT ![r] = <<h[1].i>>]
                    /\ UNCHANGED <<hist, wv, rpos, rids, roffs, crashed, bad>>
RBody(r) == /\ rpc[r] = "body"
            /\ LET n == Len(rbuf[r])
                   p == rpos[r] + Size + n IN
               IF n > Payload
               THEN /\ rids' = [rids EXCEPT ![r] = Append(@, rbuf[r][1])]
                    /\ roffs' = [roffs EXCEPT ![r] = Append(@, rpos[r])]
                    /\ rpos' = [rpos EXCEPT ![r] = @ + Payload + Size]
                    /\ rpc' = [rpc EXCEPT ![r] = "head"]
                    /\ rbuf' = [rbuf EXCEPT ![r] = <<>>]
                    /\ UNCHANGED <<hist, wv, crashed, bad>>
               ELSE IF p > Len(file) THEN Finish(r, "err")
               ELSE IF file[p] # Cell(rbuf[r][1], n) THEN Finish(r, "err")
               ELSE /\ rbuf' = [rbuf EXCEPT ![r] = Append(@, 0)]
                    /\ UNCHANGED <<hist, wv, rpos, rids, rpc, roffs, crashed, bad>>

ANext == \/ ~crashed /\ \E t \in Threads : \/ WLock(t) \/ WReserve(t) \/ WPayload(t) \/ WHead(t)
                                           \/ WDone(t) \/ WFail(t) \/ WFailed(t) \/ WUnlock(t)
                                           \/ \E i \in Ids : WBegin(t, i)
         \/ Crash
         \/ \E r \in Scans : RStart(r) \/ RHead(r) \/ RBody(r)

Guaranteed == ~bad
\* Vacuity: a scan can show a record that is still being written
NeverEarly == \A r \in Scans : Range(rids[r]) \subseteq ended
=============================================================================
