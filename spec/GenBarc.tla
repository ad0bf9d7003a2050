------------------------------ MODULE GenBarc -------------------------------
(* Behaviours of Barc.  In edge mode, every transition of the state graph  *)
(* for a few records of fixed content; in simulation, records of randomly   *)
(* drawn headers, bodies, body forms, strategies and limits.                *)
EXTENDS Barc, RecGen, TLC, Json
CONSTANTS MaxRecs, Depth
VARIABLES h

GC(n) == 10 * n
\* Not a constant, which TLC would draw once
Draw == RandomElement(1..(1000000 + 0 * Len(h)))
Content(w) == [t |-> "D", m |-> w.m, qh |-> w.qh, qb |-> w.qb.v, rh |-> w.rh, rb |-> w.rb.v]

\* Edge mode: the k-th record
FixRec(k) == [m |-> [h |-> <<<<0, <<k>>>>>>, b |-> 0], qh |-> NoHdr,
              qb |-> B(IF k = 2 THEN "fs" ELSE "slice", IF k = 1 THEN <<>> ELSE <<k>>),
              rh |-> IF k = 3 THEN [h |-> <<<<1, <<1, 1>>>>>>, b |-> 0] ELSE NoHdr,
              rb |-> B("ram", IF k = 3 THEN <<>> ELSE <<k + 10, k + 20>>)]
FixStrat(k) == <<[k |-> "none"], [k |-> "gzip", min |-> 0, lvl |-> 6, id |-> FALSE, f |-> TRUE],
                 [k |-> "brotli", min |-> 0, lvl |-> 6, id |-> FALSE, f |-> TRUE]>>[k]
FixTune == [k |-> 1, d |-> 2, mk |-> 9, md |-> 0, br |-> 64, bf |-> 64]

\* What an implementation would do, for a step with limits t
ModeOf(z) == IF z.k = "none" THEN "P" ELSE IF z.k = "gzip" THEN "Z" ELSE "B"
GWrite(hd, w, z) ==
  /\ Len(recs) < MaxRecs
  /\ Write(hd, Content(w), z.k, size, size + 100, TRUE, ModeOf(z))
GRead(r, x, t) ==
  /\ rd[r] >= 0
  /\ LET mr == C(t.k) + t.d
         m0 == C(t.mk) + t.md
         mb == IF m0 < mr THEN mr ELSE m0
         i == At(rd[r])
         pl(n) == IF n = 0 \/ (C(n) + 2 <= mr) THEN "ram" ELSE "file"
     IN IF i = 0 THEN Read(r, x, mr, mb, "none", <<>>, rd[r], "", "", 0)
        ELSE LET w == recs[i] IN
             IF w.z /\ C(Len(w.c.rb)) > mb THEN Read(r, x, mr, mb, "toolong", <<>>, 0, "", "", 0)
             ELSE LET q == pl(Len(w.c.qb))
                      s == pl(Len(w.c.rb))
                  IN Read(r, x, mr, mb, "rec", w.c, w.end, q, s, IF w.z THEN FileCount(q, s) ELSE 0)
GPeek(x, map) == kept[x] # Nothing
   /\ Peek(x, map, TRUE, kept[x].c, IF map THEN Mapped(kept[x].q) ELSE kept[x].q,
           IF map THEN Mapped(kept[x].s) ELSE kept[x].s)

EdgeStep(op) ==
  \/ \E hd \in Handles : op = [op |-> "open", h |-> hd] /\ Open(hd)
  \/ \E hd \in Handles : LET k == Len(recs) + 1 IN
        k <= MaxRecs /\ op = [op |-> "write", h |-> hd, c |-> FixRec(k), z |-> FixStrat(k)]
                     /\ GWrite(hd, FixRec(k), FixStrat(k))
  \/ \E hd \in Handles, r \in Readers :
        op = [op |-> "reader", h |-> hd, r |-> r] /\ NewReader(hd, r, exists)
  \/ \E r \in Readers, k \in 0..Len(recs) : op = [op |-> "seek", r |-> r, k |-> k]
        /\ Seek(r, k, IF k = 0 THEN size ELSE recs[k].at)
  \/ \E r \in Readers, x \in Slots \cup {0} :
        op = [op |-> "read", r |-> r, x |-> x, t |-> FixTune] /\ GRead(r, x, FixTune)
  \/ \E x \in Slots, map \in BOOLEAN : op = [op |-> "peek", x |-> x, map |-> map] /\ GPeek(x, map)
  \/ \E x \in Slots : op = [op |-> "drop", x |-> x] /\ Drop(x)

EdgeOps == [op : {"open"}, h : Handles]
      \cup {[op |-> "write", h |-> hd, c |-> FixRec(k), z |-> FixStrat(k)] : hd \in Handles, k \in 1..MaxRecs}
      \cup [op : {"reader"}, h : Handles, r : Readers]
      \cup [op : {"seek"}, r : Readers, k : 0..MaxRecs]
      \cup [op : {"read"}, r : Readers, x : Slots \cup {0}, t : {FixTune}]
      \cup [op : {"peek"}, x : Slots, map : BOOLEAN]
      \cup [op : {"drop"}, x : Slots]

GInit == Init /\ h = <<>>
\* h holds the last operation as issued
EdgeNext == \E op \in EdgeOps : EdgeStep(op) /\ h' = op
View == state
Edge == PrintT(<<"EDGE", ToJson(View), ToJson(h'), ToJson(View')>>)

Rec(op) == h' = Append(h, op)
SimStep ==
  \/ \E hd \in Handles : hd \notin open /\ Open(hd) /\ Rec([op |-> "open", h |-> hd])
  \/ \E hd \in Handles, w \in {Draw} :
        GWrite(hd, RecOf(w), StratOf(w)) /\ Rec([op |-> "write", h |-> hd, c |-> RecOf(w), z |-> StratOf(w)])
  \/ \E hd \in Handles, r \in Readers :
        NewReader(hd, r, exists) /\ Rec([op |-> "reader", h |-> hd, r |-> r])
  \/ \E r \in Readers, k \in {RandomElement(0..Len(recs))} :
        Seek(r, k, IF k = 0 THEN size ELSE recs[k].at) /\ Rec([op |-> "seek", r |-> r, k |-> k])
  \/ \E r \in Readers, u \in 1..3, x \in {RandomElement(Slots \cup {0})}, w \in {Draw} :
        GRead(r, x, LimitOf(w)) /\ Rec([op |-> "read", r |-> r, x |-> x, t |-> LimitOf(w)])
  \/ \E x \in Slots, map \in {RandomElement(BOOLEAN)} :
        GPeek(x, map) /\ Rec([op |-> "peek", x |-> x, map |-> map])
  \/ \E x \in Slots : Drop(x) /\ Rec([op |-> "drop", x |-> x])

SimNext ==
  \/ Len(h) < Depth /\ SimStep
  \/ /\ Len(h) = Depth
     /\ PrintT(<<"GEN", ToJson(h)>>)
     /\ h' = Append(h, ev)
     /\ UNCHANGED <<state, ev>>
=============================================================================
