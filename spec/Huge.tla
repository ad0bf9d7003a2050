-------------------------------- MODULE Huge --------------------------------
(* Bodies and archives beyond what fits 31, 32 and more bits.  Lengths and   *)
(* offsets are pairs <<hi, lo>> of base 2^24 digits.  A body is of zeros but *)
(* for its marks, a few bytes at given positions, of which the last ends it. *)
EXTENDS BarcFormat

Base == 16777216
Zero == <<0, 0>>
Num(n) == <<n \div Base, n % Base>>
Add(p, q) == LET lo == p[2] + q[2] IN <<p[1] + q[1] + lo \div Base, lo % Base>>
Minus(p, q) == IF p[2] >= q[2] THEN <<p[1] - q[1], p[2] - q[2]>>
               ELSE <<p[1] - q[1] - 1, p[2] + Base - q[2]>>
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
HexPair(p, w) == HexOf(p[1], w - 6) \o HexOf(p[2], 6)

\* Mark k of a body, all different
MarkBytes(id, k) == <<200 + k, 1 + id, 100 + k, 255 - id>>
RECURSIVE MarksAt(_, _, _, _)
MarksAt(ps, n, id, k) ==
  IF ps = <<>> THEN <<[at |-> Minus(n, Num(4)), b |-> MarkBytes(id, k)]>>
  ELSE IF Less(Add(ps[1], Num(12)), n)
       THEN <<[at |-> ps[1], b |-> MarkBytes(id, k)]>> \o MarksAt(Tail(ps), n, id, k + 1)
       ELSE MarksAt(Tail(ps), n, id, k + 1)
\* At the start, and before and across the places where numbers are cut off
MarkPlaces == <<Zero, Num(777), <<127, 16777200>>, <<128, 5>>, <<255, 16777214>>, <<256, 5>>, <<320, 9>>>>
BodyOfLen(n, id) == [n |-> n, marks |-> IF Less(n, Num(4)) THEN <<>> ELSE MarksAt(MarkPlaces, n, id, 0)]

(* What is observed of a body: its length and the bytes at its marks *)
Shown(b, e) == /\ e.n = b.n
               /\ Len(e.marks) = Len(b.marks)
               /\ \A k \in 1..Len(b.marks) : e.marks[k] = b.marks[k].b

(* Archives *)
HdrBlock(v) == IF v = 0 THEN <<>> ELSE Block(<< <<<<97>>, <<48 + v>>>> >>)
Padded(n) == IF n = Zero THEN n ELSE Add(n, Num(2))
Shift(ms, o) == [k \in 1..Len(ms) |-> [at |-> Add(ms[k].at, o), b |-> ms[k].b]]
\* Parts of a record [m, qh, q, rh, s], where the header blocks are 0..9
PartBytes(r) == [m |-> Part(HdrBlock(r.m), TRUE), qh |-> Part(HdrBlock(r.qh), TRUE),
                 rh |-> Part(HdrBlock(r.rh), TRUE)]
PayloadLen(r) == LET p == PartBytes(r) IN
  Add(Add(Num(Len(p.m) + Len(p.qh) + Len(p.rh)), Padded(r.q.n)), Padded(r.s.n))
RecLen(r) == Add(Num(HeadSize), PayloadLen(r))
HugeHead(r) == LET p == PartBytes(r) IN
  Magic \o HexPair(PayloadLen(r), 12) \o <<SP, 68, 80, SP>> \o HexOf(Len(p.m), 5) \o <<SP>>
  \o HexOf(Len(p.qh), 5) \o <<SP>> \o HexPair(Padded(r.q.n), 10) \o <<SP>>
  \o HexOf(Len(p.rh), 5) \o CRLF \o CRLF
Ending(b, o) == IF b.n = Zero THEN <<>> ELSE <<[at |-> Add(o, b.n), b |-> CRLF]>>
\* What a record has at offset o but zeros
Pieces(r, o) ==
  LET p == PartBytes(r)
      q == Add(o, Num(HeadSize + Len(p.m) + Len(p.qh)))
      h == Add(q, Padded(r.q.n))
      s == Add(h, Num(Len(p.rh)))
  IN <<[at |-> o, b |-> HugeHead(r) \o p.m \o p.qh]>>
     \o Shift(r.q.marks, q) \o Ending(r.q, q)
     \o (IF p.rh = <<>> THEN <<>> ELSE <<[at |-> h, b |-> p.rh]>>)
     \o Shift(r.s.marks, s) \o Ending(r.s, s)
RECURSIVE Offsets(_, _)
Offsets(rs, o) == IF rs = <<>> THEN <<o>> ELSE <<o>> \o Offsets(Tail(rs), Add(o, RecLen(rs[1])))
RECURSIVE AllPieces(_, _)
AllPieces(rs, o) == IF rs = <<>> THEN <<>>
                    ELSE Pieces(rs[1], o) \o AllPieces(Tail(rs), Add(o, RecLen(rs[1])))
=============================================================================
