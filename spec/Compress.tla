------------------------------ MODULE Compress ------------------------------
(* When is a record stored compressed?  A record is given by its content    *)
(* types, body lengths, further header lengths and its list of encodings     *)
(* removed; a strategy by kind, minimum length, identity check and, for one  *)
(* written by a user, the weight of non-compressible bytes in percent.       *)
EXTENDS Integers, Sequences

Textual == {"text/plain", "text/html; charset=utf-8", "TEXT/Css", "text/x-anything",
            "application/json", "application/javascript", "application/xml",
            "application/xhtml+xml", "application/atom+xml", "application/rss+xml",
            "application/html", "application/x-font-ttf", "image/svg+xml", "image/svg",
            "font/otf", "font/ttf", "text/html; charset=utf-8; boundary=x",
            "text/plain;charset=us-ascii;format=flowed", "application/json; charset=utf-8", "image/svg+xml; charset=utf-8"}
Other == {"", "image/png", "image/jpeg", "application/octet-stream", "application/gzip",
          "application/pdf", "video/mp4", "audio/mpeg", "font/woff2", "multipart/form-data",
          "application/zip", "garbage", "/", "application/jsonx",
          "multipart/form-data; boundary=x; charset=utf-8", "image/png; charset=utf-8", "application/octet-stream; text=html"}

\* Lists of encodings removed as recorded, and whether these end in identity
EndsIdentity == {"identity", "gzip, identity", "chunked, br, identity"}
NotIdentity == {"", "gzip", "identity, gzip", "chunked"}

\* "bare": by a user, with nothing but what is required
Kinds == {"none", "gzip", "brotli", "custom", "bare"}
Min(z) == IF z.min >= 0 THEN z.min
          ELSE CASE z.k = "gzip" -> 4096 [] z.k = "brotli" -> 1024 [] OTHER -> 0
CheckId(z) == CASE z.id = "on" -> TRUE [] z.id = "off" -> FALSE
                [] OTHER -> z.k \in {"gzip", "brotli"}
Coef(z) == IF z.k = "custom" THEN z.coef ELSE 50

\* Length of a header block: pairs of name and value lengths
RECURSIVE Sum(_, _)
Sum(hs, n) == IF n = 0 THEN 0 ELSE Sum(hs, n - 1) + hs[n][1] + hs[n][2] + 4
Block(hs) == Sum(hs, Len(hs))
\* with the lengths of special headers, if present
Special(nlen, vlen) == IF vlen = 0 THEN 0 ELSE nlen + vlen + 4

TextRes(r, z) == r.st \in Textual /\ (CheckId(z) => r.dec \in EndsIdentity)
TextReq(r) == r.qt \in Textual
Compressible(r, z) ==
  (IF TextRes(r, z) THEN r.sl ELSE 0) + (IF TextReq(r) THEN r.ql ELSE 0)
  + Block(r.qh) + Block(r.sh) + Block(r.mh)
  + Special(12, r.qtl) + Special(12, r.stl) + Special(16, r.decl)
\* Rounded by body or in total
Low(r, z) == ((IF TextRes(r, z) THEN 0 ELSE r.sl) * Coef(z)) \div 100
           + ((IF TextReq(r) THEN 0 ELSE r.ql) * Coef(z)) \div 100
High(r, z) == (((IF TextRes(r, z) THEN 0 ELSE r.sl) + (IF TextReq(r) THEN 0 ELSE r.ql)) * Coef(z)) \div 100

\* A minimum length that no record reaches
Never(z) == z.min < -1
Must(r, z) == ~Never(z) /\ z.k # "none" /\ Compressible(r, z) >= Min(z) + High(r, z)
MustNot(r, z) == z.k = "none" \/ Never(z) \/ Compressible(r, z) < Min(z) + Low(r, z)

Flag(z) == CASE z.k = "none" -> "P" [] z.k = "brotli" -> "B" [] OTHER -> "Z"
\* mode: flag in the stored head; api: as asked directly; same: read back equal
Stored(r, z, mode, api, same) ==
  /\ same
  /\ mode \in {"P", Flag(z)}
  /\ Must(r, z) => mode = Flag(z) /\ api
  /\ MustNot(r, z) => mode = "P" /\ (z.k # "none" => ~api)
\* Sizes s stored of the same text of n bytes by level (from 0): 0 does not
\* compress (gzip), higher levels compress more.  Each size is, but for the little
\* that the splitting of its input makes, next to that of the encoder at this
\* level, of the sizes by level in r; that by default, d, is the one of level 6.
Abs(a) == IF a < 0 THEN -a ELSE a
Levels(k, n, s, d, r) == /\ k = "gzip" => s[1] >= n
                      /\ s[2] < n /\ s[10] < s[2]
                      /\ \A i \in (IF k = "gzip" THEN 1 ELSE 2)..10, j \in 1..10 :
                           Abs(s[i] - r[i]) <= Abs(s[i] - r[j]) + (n \div 600)
                      /\ \A h \in 1..10 : Abs(d - r[7]) <= Abs(d - r[h]) + (n \div 600)
=============================================================================
