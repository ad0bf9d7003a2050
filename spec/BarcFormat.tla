----------------------------- MODULE BarcFormat -----------------------------
(* The layout of archives: the bytes of a record, from its content.  A       *)
(* record is [m, qh, q, rh, s]: header blocks as sequences of <<name,        *)
(* value>> and bodies, all of bytes.  Names differing in case only are the   *)
(* same and the order of different names is free.                            *)
EXTENDS BarcParse

CRLF == <<CR, LF>>
RECURSIVE Block(_)
Block(ps) == IF ps = <<>> THEN <<>>
             ELSE ps[1][1] \o <<COLON, SP>> \o ps[1][2] \o CRLF \o Block(Tail(ps))
\* Parts end with an empty line if stored plain
Part(s, pad) == IF s = <<>> \/ ~pad THEN s ELSE s \o CRLF
PartsOf(r, pad) == <<Part(Block(r.m), pad), Part(Block(r.qh), pad), Part(r.q, pad),
                     Part(Block(r.rh), pad), Part(r.s, pad)>>
Join(ps) == ps[1] \o ps[2] \o ps[3] \o ps[4] \o ps[5]

RECURSIVE Pow16(_)
Pow16(n) == IF n = 0 THEN 1 ELSE 16 * Pow16(n - 1)
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
\* v in w digits; values here are below 16^6
HexOf(v, w) == [k \in 1..w |-> IF w - k > 5 THEN 48 ELSE HexDigit((v \div Pow16(w - k)) % 16)]
Flag(z) == CASE z = "none" -> 80 [] z = "gzip" -> 90 [] z = "brotli" -> 66
\* Head of a record with the parts ps, stored in len bytes
HeadOf(ps, len, z) ==
  Magic \o HexOf(len, 12) \o <<SP, 68, Flag(z), SP>> \o HexOf(Len(ps[1]), 5) \o <<SP>>
  \o HexOf(Len(ps[2]), 5) \o <<SP>> \o HexOf(Len(ps[3]), 10) \o <<SP>>
  \o HexOf(Len(ps[4]), 5) \o CRLF \o CRLF

\* One of the layouts of a plain record
Plain(r) == LET ps == PartsOf(r, TRUE) p == Join(ps) IN HeadOf(ps, Len(p), "none") \o p

Lowered(ps) == [k \in 1..Len(ps) |-> <<LowerName(ps[k][1]), ps[k][2]>>]
\* Header block b (without terminator) is for the headers ps
BlockFor(b, ps) ==
  /\ Len(b) = Len(Block(ps))
  /\ b # <<>> => /\ BlockClass(b \o CRLF) = "ok"
                 /\ SameHeaders(Pairs(b \o CRLF), Lowered(ps))
                 /\ \A k \in 1..Len(Lines(b)) : LET ln == Lines(b)[k] IN
                      SubSeq(ln, 1, First(ln, COLON) - 1) = Pairs(b \o CRLF)[k][1]
\* Payload d (as stored plain, or decompressed) is for record r
PayloadFor(d, r, pad) ==
  LET ps == PartsOf(r, pad)
      n == [k \in 1..5 |-> Len(ps[k])]
      at == [k \in 1..5 |-> IF k = 1 THEN 0 ELSE IF k = 2 THEN n[1] ELSE IF k = 3 THEN n[1] + n[2]
                            ELSE IF k = 4 THEN n[1] + n[2] + n[3] ELSE n[1] + n[2] + n[3] + n[4]]
      got(k) == Sub(d, at[k], n[k])
      blk(k) == IF n[k] = 0 \/ ~pad THEN got(k) ELSE SubSeq(got(k), 1, n[k] - 2)
      ends(k) == n[k] = 0 \/ ~pad \/ Sub(d, at[k] + n[k] - 2, 2) = CRLF
  IN /\ Len(d) = n[1] + n[2] + n[3] + n[4] + n[5]
     /\ BlockFor(blk(1), r.m) /\ ends(1)
     /\ BlockFor(blk(2), r.qh) /\ ends(2)
     /\ got(3) = ps[3]
     /\ BlockFor(blk(4), r.rh) /\ ends(4)
     /\ got(5) = ps[5]

\* The bytes f appended for record r under strategy z; dec is what the
\* payload decompresses to, all of it being used.
Written(f, r, z, dok, dec) ==
  /\ Len(f) >= HeadSize
  /\ LET h == SubSeq(f, 1, HeadSize)
         p == SubSeq(f, HeadSize + 1, Len(f))
     IN IF h[21] = Flag("none")
        THEN /\ h = HeadOf(PartsOf(r, TRUE), Len(p), "none")
             /\ PayloadFor(p, r, TRUE)
        ELSE /\ z # "none"
             /\ h = HeadOf(PartsOf(r, FALSE), Len(p), z)
             /\ dok /\ PayloadFor(dec, r, FALSE)

\* What is read of a record r laid out this way
ReadBack(r, e) ==
  /\ e.k = "rec"
  /\ e.q = r.q /\ e.s = r.s
  /\ SameHeaders(Lowered(r.m), e.m) /\ SameHeaders(Lowered(r.qh), e.qh)
  /\ SameHeaders(Lowered(r.rh), e.rh)

\* Writing a single part
PartWritten(e) ==
  LET want == IF e.what = "body" THEN Part(e.b, e.pad) ELSE Part(Block(e.h), e.pad)
  IN /\ e.n = Len(want) /\ Len(e.out) = e.n
     /\ IF e.what = "body" THEN e.out = want
        ELSE IF e.n = 0 THEN TRUE
        ELSE /\ e.pad => SubSeq(e.out, e.n - 1, e.n) = CRLF
             /\ BlockFor(IF e.pad THEN SubSeq(e.out, 1, e.n - 2) ELSE e.out, e.h)
=============================================================================
