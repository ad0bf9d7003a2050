---------------------------- MODULE GenCompress -----------------------------
(* Records around the decision, by drawing everything but the minimum length *)
(* and setting this close to the boundary.                                   *)
EXTENDS Compress, RecGen, TLC, Json, IOUtils
VARIABLE x
Seed == atoi(IOEnv.SEED)
Num == atoi(IOEnv.NUM)
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN <<e>> \o SetToSeq(S \ {e})
Texts == SetToSeq(Textual)
Others == SetToSeq(Other)
\* Lengths of the strings
TypeLen == [t \in Textual \cup Other |->
  CASE t = "text/plain" -> 10 [] t = "text/html; charset=utf-8" -> 24 [] t = "TEXT/Css" -> 8
    [] t = "text/x-anything" -> 15 [] t = "application/json" -> 16 [] t = "application/javascript" -> 22
    [] t = "application/xml" -> 15 [] t = "application/xhtml+xml" -> 21 [] t = "application/atom+xml" -> 20
    [] t = "application/rss+xml" -> 19 [] t = "application/html" -> 16 [] t = "application/x-font-ttf" -> 22
    [] t = "image/svg+xml" -> 13 [] t = "image/svg" -> 9 [] t = "font/otf" -> 8 [] t = "font/ttf" -> 8
    [] t = "" -> 0 [] t = "image/png" -> 9 [] t = "image/jpeg" -> 10 [] t = "application/octet-stream" -> 24
    [] t = "application/gzip" -> 16 [] t = "application/pdf" -> 15 [] t = "video/mp4" -> 9
    [] t = "audio/mpeg" -> 10 [] t = "font/woff2" -> 10 [] t = "multipart/form-data" -> 19
    [] t = "application/zip" -> 15 [] t = "garbage" -> 7 [] t = "/" -> 1 [] t = "application/jsonx" -> 17
    [] t = "text/html; charset=utf-8; boundary=x" -> 36 [] t = "text/plain;charset=us-ascii;format=flowed" -> 41
    [] t = "application/json; charset=utf-8" -> 31 [] t = "image/svg+xml; charset=utf-8" -> 28
    [] t = "multipart/form-data; boundary=x; charset=utf-8" -> 46 [] t = "image/png; charset=utf-8" -> 24 [] t = "application/octet-stream; text=html" -> 35]
DecLen == [d \in EndsIdentity \cup NotIdentity |->
  CASE d = "identity" -> 8 [] d = "gzip, identity" -> 14 [] d = "chunked, br, identity" -> 21
    [] d = "" -> 0 [] d = "gzip" -> 4 [] d = "identity, gzip" -> 14 [] d = "chunked" -> 7]
Ty(w, i) == IF Mix(w, i) % 3 = 0 THEN Pick(w, i + 1, Others) ELSE Pick(w, i + 1, Texts)
Lens == <<0, 0, 1, 2, 3, 99, 100, 1023, 1024, 1025, 4095, 4097, 20001>>
Hs(w, i) == [j \in 1..(Mix(w, i) % 4) |-> <<1 + (Mix(w, i + j) % 20), Mix(w, i + 10 + j) % 60>>]
R(w) == LET qt == Ty(w, 1) st == Ty(w, 3) dec == Pick(w, 5, SetToSeq(EndsIdentity \cup NotIdentity))
        IN [qt |-> qt, st |-> st, dec |-> dec, qtl |-> TypeLen[qt], stl |-> TypeLen[st],
            decl |-> DecLen[dec], ql |-> Pick(w, 6, Lens), sl |-> Pick(w, 7, Lens),
            qh |-> Hs(w, 100), sh |-> Hs(w, 200), mh |-> Hs(w, 300)]
Z0(w) == LET k == Pick(w, 8, <<"none", "gzip", "gzip", "brotli", "brotli", "custom", "bare">>)
         IN [k |-> k, min |-> -1, id |-> IF k = "bare" THEN "default" ELSE Pick(w, 9, <<"on", "off", "default">>),
             coef |-> Pick(w, 10, <<0, 50, 100>>), lvl |-> Pick(w, 11, <<1, 6, 9>>)]
Z(w) == LET r == R(w) z == Z0(w) e == Mix(w, 12) % 9 near == Compressible(r, z) - High(r, z) + e - 4
        IN CASE z.k = "bare" -> z
             [] Mix(w, 14) % 20 = 0 -> [z EXCEPT !.min = -2 - (Mix(w, 15) % 2)]
             [] Mix(w, 13) % 5 = 0 -> z
             [] Mix(w, 13) % 5 = 1 -> [z EXCEPT !.min = 0]
             [] OTHER -> [z EXCEPT !.min = IF near < 0 THEN 0 ELSE near]
\* Also close to the default minimum, by the length of a body
Near(r, z, w) == LET none == [r EXCEPT !.sl = 0]
                     n == Min(z) + High(none, z) - Compressible(none, z) + (Mix(w, 12) % 9) - 4
                 IN IF z.min = -1 /\ TextRes(r, z) /\ n > 0 THEN [r EXCEPT !.sl = n] ELSE r
\* Bodies of many millions of bytes, one of them textual
Big(w) == LET z == [k |-> Pick(w, 8, <<"gzip", "brotli">>), min |-> Pick(w, 9, <<0, 1, 4096>>), id |-> "off",
                    coef |-> 50, lvl |-> 1]
              r == [R(w) EXCEPT !.st = "image/png", !.stl = 9, !.sl = 33554433 + (Mix(w, 16) % 4),
                                !.qt = "text/plain", !.qtl = 10, !.ql = 0]
          IN [r |-> [r EXCEPT !.ql = Min(z) + High(r, z) - Compressible(r, z) + (Mix(w, 12) % 3) - 1], z |-> z]
GInit == x \in {LET w == Seed * 10007 + k IN [r |-> Near(R(w), Z(w), w), z |-> Z(w)] : k \in 1..Num}
              \cup {Big(Seed * 10007 + k) : k \in 1..(IF Num > 10000 THEN 40 ELSE 8)}
GNext == x # <<>> /\ PrintT(<<"GEN", ToJson(x)>>) /\ x' = <<>>
=============================================================================
