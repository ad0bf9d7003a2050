------------------------------- MODULE GenEnc -------------------------------
(* All lists of up to 3 transfer and 2 content codings, and drawn ones of    *)
(* several lines.                                                            *)
EXTENDS Encodings, RecGen, TLC, Json, IOUtils
VARIABLE x
Names == <<"chunked", "gzip", "x-gzip", "deflate", "br", "compress", "identity", "foo">>
NameS == {Names[i] : i \in 1..8}
\* and more unknown ones, in the drawn lists
More == Names \o Names \o <<"gzipped", "agzip", "xx-gzip", "x-gzip2", "gzip-x", "brotli", "bro", "deflate64", "zstd",
                            "trailers", "chunkeds", "un-chunked", "identity2", "x-chunked">>
Lists(n) == UNION {[1..k -> NameS] : k \in 0..n}
Lines(w, i) == [j \in 1..(Mix(w, i) % 4) |-> [k \in 1..(Mix(w, i + 10 * j) % 4) |-> Pick(w, i + 10 * j + k, More)]]
Num == atoi(IOEnv.NUM)
Seed == atoi(IOEnv.SEED)
One(s) == IF s = <<>> THEN <<>> ELSE <<s>>
GInit == x \in {[te |-> {t}, ce |-> Lists(2)] : t \in Lists(3)}
               \cup {[w |-> Seed * 1000 + k] : k \in 1..Num}
Cases == IF "w" \in DOMAIN x THEN {[te |-> Lines(x.w, 100), ce |-> Lines(x.w, 500)]}
         ELSE {[te |-> One(t), ce |-> One(c)] : t \in x.te, c \in x.ce}
GNext == x # <<>> /\ PrintT(<<"GEN", ToJson(Cases)>>) /\ x' = <<>>
=============================================================================
