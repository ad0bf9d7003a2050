----------------------------- MODULE BarcParse ------------------------------
(* What reading at an offset of an arbitrary file may give.  A file is a     *)
(* sequence of bytes.  Intact records are returned exactly; what is damaged *)
(* beyond doubt is an error; in between (separators, terminators and header *)
(* blocks that a lenient reader could accept) an error is allowed, but a    *)
(* record's bodies are always exactly the bytes its head describes.         *)
EXTENDS Integers, Sequences, FiniteSets

CR == 13   LF == 10   SP == 32   TAB == 9   COLON == 58
HeadSize == 54
Cap == 16777216                       \* larger values are all the same here
Min2(a, b) == IF a < b THEN a ELSE b

Sub(f, from, len) == SubSeq(f, from + 1, from + len)     \* from 0-based

\* Hexadecimal fields
Lower(b) == (b >= 48 /\ b <= 57) \/ (b >= 97 /\ b <= 102)
Upper(b) == b >= 65 /\ b <= 70
Digit(b) == IF b <= 57 THEN b - 48 ELSE IF b >= 97 THEN b - 87 ELSE b - 55
RECURSIVE HexTo(_, _)
HexTo(s, n) == IF n = 0 THEN 0 ELSE Min2(Cap, HexTo(s, n - 1) * 16 + Digit(s[n]))
Hex(s) == HexTo(s, Len(s))

Magic == <<66, 65, 82, 67, 50, 32>>
HexAt == {<<6, 12>>, <<22, 5>>, <<28, 5>>, <<34, 10>>, <<45, 5>>}
HexBytes(h) == UNION {{h[i] : i \in (p[1] + 1)..(p[1] + p[2])} : p \in HexAt}
SepOk(h) == /\ \A i \in {19, 22, 28, 34, 45} : h[i] = SP
            /\ h[51] = CR /\ h[52] = LF /\ h[53] = CR /\ h[54] = LF
RecTypes == {68, 82}                  \* D, R
Compressions == {80, 90, 66}          \* P, Z, B

\* The head of a record not yet complete, of which a first part is no error
Zeros(n) == [k \in 1..n |-> 48]
Reserve == Magic \o Zeros(12) \o <<SP, 82, 80, SP>> \o Zeros(5) \o <<SP>> \o Zeros(5) \o <<SP>>
           \o Zeros(10) \o <<SP>> \o Zeros(5) \o <<CR, LF, CR, LF>>

\* Header blocks, including the final empty line
NameByte(b) == \/ b >= 48 /\ b <= 57
               \/ b >= 65 /\ b <= 90
               \/ b >= 97 /\ b <= 122
               \/ b \in {33, 35, 36, 37, 38, 39, 42, 43, 45, 46, 94, 95, 96, 124, 126}
ValueByte(b) == b = TAB \/ (b >= 32 /\ b # 127)
LowerName(s) == [i \in 1..Len(s) |-> IF s[i] >= 65 /\ s[i] <= 90 THEN s[i] + 32 ELSE s[i]]

\* Positions of line feeds, in order
RECURSIVE Ends(_, _)
Ends(s, i) == IF i > Len(s) THEN <<>>
              ELSE IF s[i] = LF THEN <<i>> \o Ends(s, i + 1) ELSE Ends(s, i + 1)
Lines(s) == LET e == Ends(s, 1)
            IN [k \in 1..Len(e) |-> SubSeq(s, IF k = 1 THEN 1 ELSE e[k - 1] + 1, e[k])]
First(s, b) == IF \E i \in 1..Len(s) : s[i] = b
               THEN CHOOSE i \in 1..Len(s) : s[i] = b /\ \A j \in 1..(i - 1) : s[j] # b ELSE 0

\* name ": " value CR LF, without surrounding blanks in the value
StrictLine(ln) ==
  LET n == Len(ln)
      c == First(ln, COLON)
  IN /\ n >= 5 /\ ln[n - 1] = CR /\ ln[n] = LF
     /\ c > 1 /\ c + 1 <= n - 2 /\ ln[c + 1] = SP
     /\ \A i \in 1..(c - 1) : NameByte(ln[i])
     /\ \A i \in (c + 2)..(n - 2) : ValueByte(ln[i])
     /\ c + 2 <= n - 2 => ln[c + 2] \notin {SP, TAB} /\ ln[n - 2] \notin {SP, TAB}
Pair(ln) == LET c == First(ln, COLON)
            IN <<LowerName(SubSeq(ln, 1, c - 1)), SubSeq(ln, c + 2, Len(ln) - 2)>>
Empty(ln) == ln = <<CR, LF>>
\* A line as the end of a block to some reader
Blank(ln) == ln = <<LF>> \/ Empty(ln)
BlockClass(s) ==
  LET ls == Lines(s)
      n == Len(ls)
  IN IF s[Len(s)] # LF \/ n = 0 THEN "bad"
     ELSE IF ~Blank(ls[n]) THEN "bad"
     ELSE IF \E i \in 1..Len(s) : s[i] = 127 \/ (s[i] < 32 /\ s[i] \notin {TAB, LF, CR}) THEN "bad"
     ELSE IF \E k \in 1..(n - 1) : Blank(ls[k]) THEN "bad"
     ELSE IF \E k \in 1..(n - 1) : First(ls[k], COLON) = 0 /\ ls[k][1] \notin {SP, TAB} THEN "bad"
     ELSE IF Empty(ls[n]) /\ \A k \in 1..(n - 1) : StrictLine(ls[k]) THEN "ok"
     ELSE "open"
Pairs(s) == LET ls == Lines(s) IN [k \in 1..(Len(ls) - 1) |-> Pair(ls[k])]
\* Values by name, in order
Of(ps, nm) == SelectSeq(ps, LAMBDA p : p[1] = nm)
SameHeaders(a, b) == /\ Len(a) = Len(b)
                     /\ \A k \in 1..Len(a) : Of(a, a[k][1]) = Of(b, a[k][1])

\* Parts of a record in bytes d (0-based positions), padded with CR LF if p
Parts(d, m, qh, qb, rh, total, pad) ==
  LET blk(at, n) == IF n = 0 THEN <<>> ELSE IF pad THEN Sub(d, at, n) ELSE Sub(d, at, n) \o <<CR, LF>>
      bdy(at, n) == IF n = 0 THEN <<>> ELSE Sub(d, at, IF pad THEN n - 2 ELSE n)
      end(at, n) == n = 0 \/ ~pad \/ Sub(d, at + n - 2, 2) = <<CR, LF>>
      rb == total - m - qh - qb - rh
  IN [m |-> blk(0, m), qh |-> blk(m, qh), rh |-> blk(m + qh + qb, rh),
      q |-> bdy(m + qh, qb), s |-> bdy(m + qh + qb + rh, rb),
      ends |-> end(m + qh, qb) /\ end(m + qh + qb + rh, rb)]

Short(n) == n = 1 \/ n = 2
Classes(p) == {BlockClass(b) : b \in {p.m, p.qh, p.rh} \ {<<>>}}
HdrOk(blk, got) == IF blk = <<>> THEN got = <<>>
                   ELSE BlockClass(blk) = "ok" => SameHeaders(Pairs(blk), got)

\* A record e with the parts p, or an error if there is doubt
Record(p, doubt, next, e) ==
  IF "bad" \in Classes(p) THEN e.k = "err"
  ELSE \/ /\ e.k = "rec"
          /\ e.q = p.q /\ e.s = p.s
          /\ HdrOk(p.m, e.m) /\ HdrOk(p.qh, e.qh) /\ HdrOk(p.rh, e.rh)
          /\ next < Cap => e.next = next
       \/ e.k = "err" /\ (doubt \/ "open" \in Classes(p))

\* May reading file f at e.off give e?
Allowed(f, e) ==
  LET n == Len(f)
      off == e.off
  IN IF off >= n THEN e.k = "none" /\ e.next = off
     ELSE IF n - off < HeadSize
     THEN \/ e.k = "err"
          \/ e.k = "none" /\ e.next = off /\ Sub(f, off, n - off) = SubSeq(Reserve, 1, n - off)
     ELSE LET h == Sub(f, off, HeadSize) IN
       IF SubSeq(h, 1, 6) # Magic THEN e.k = "err"
       ELSE IF \E b \in HexBytes(h) : ~Lower(b) /\ ~Upper(b) THEN e.k = "err"
       ELSE IF h[20] \notin RecTypes \/ h[21] \notin Compressions THEN e.k = "err"
       ELSE IF \E b \in HexBytes(h) : Upper(b) THEN TRUE
       ELSE IF h[20] = 82
       THEN \/ e.k = "none" /\ e.next = off
            \/ e.k = "err" /\ ~SepOk(h)
       ELSE LET len == Hex(SubSeq(h, 7, 18))
                m == Hex(SubSeq(h, 23, 27))
                qh == Hex(SubSeq(h, 29, 33))
                qb == Hex(SubSeq(h, 35, 44))
                rh == Hex(SubSeq(h, 46, 50))
                sum == m + qh + qb + rh
                base == off + HeadSize
                plain == h[21] = 80
            IN IF Short(m) \/ Short(qh) \/ Short(rh) THEN e.k = "err"
               ELSE IF plain
               THEN IF sum > len \/ base + len > n \/ Short(qb) \/ Short(len - sum)
                    THEN e.k = "err"
                    ELSE LET p == Parts(Sub(f, base, len), m, qh, qb, rh, len, TRUE)
                         IN Record(p, ~SepOk(h) \/ ~p.ends, base + len, e)
               ELSE IF ~e.dok \/ sum > Len(e.dec) THEN e.k = "err"
               ELSE Record(Parts(e.dec, m, qh, qb, rh, Len(e.dec), FALSE),
                           ~SepOk(h) \/ base + len > n, base + len, e)

\* Blocks of n header names: a limit of the header map is allowed
ManyNames(n, e) == \/ e.k = "rec" /\ e.got = n
                   \/ e.k = "err" /\ n >= 24000
=============================================================================
