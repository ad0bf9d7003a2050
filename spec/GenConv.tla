------------------------------- MODULE GenConv ------------------------------
EXTENDS DialogConv, RecGen, TLC, Json, IOUtils
VARIABLE x
Seed == atoi(IOEnv.SEED)
Num == atoi(IOEnv.NUM)
Mode == IOEnv.MODE
Methods == <<"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "CONNECT", "PATCH", "TRACE", "X-Custom!">>
Urls == <<"http://foo.com:8000/", "http://foo.com", "https://u:p@h.example/p;x?q=1&r=%20#", "/path?only=1", "*",
          "foo.com:443", "http://[::1]:80/%E2%82%AC", "http://h/?", "http://h/a'b(c)~!$&*+,;=:@">>
Versions == <<"HTTP/0.9", "HTTP/1.0", "HTTP/1.1", "HTTP/2.0", "HTTP/3.0">>
Statuses == <<100, 101, 200, 204, 206, 301, 304, 404, 418, 499, 500, 599, 600, 999>>
Encodings == <<"chunked", "deflate", "gzip", "br", "compress", "identity">>
Dec(w, i) == [j \in 1..(Mix(w, i) % 9) |-> Pick(w, i + j, Encodings)]
Dialog(w) == [method |-> Pick(w, 1, Methods), url |-> Pick(w, 2, Urls), version |-> Pick(w, 3, Versions),
              status |-> Pick(w, 4, Statuses), decoded |-> Dec(w, 5),
              qh |-> HdrOf(w, 2000), qb |-> BodyOf(w, 3000), rh |-> HdrOf(w, 4000), rb |-> BodyOf(w, 5000)]

\* Every list of up to 3 encodings
Lists == {<<>>} \cup {<<Encodings[a]>> : a \in 1..6} \cup {<<Encodings[a], Encodings[b]>> : a, b \in 1..6}
         \cup {<<Encodings[a], Encodings[b], Encodings[c]>> : a, b, c \in 1..6}

\* Field values as bytes are in the harness tables: index by field
NBad == [url |-> 5, method |-> 4, version |-> 7, status |-> 8, decoded |-> 7]
NGood == [url |-> 3, method |-> 3, version |-> 5, status |-> 4, decoded |-> 6]
States(f) == [s : {"ok"}, n : 1..NGood[f]] \cup [s : {"bad"}, n : 1..NBad[f]] \cup [s : {"missing"}, n : {1}]
OkState == [s |-> "ok", n |-> 1]
One == {[[g \in Fields |-> OkState] EXCEPT ![f] = st] : f \in Fields, st \in UNION {States(g) : g \in Fields}}
Fits(m) == \A f \in Fields : m[f] \in States(f)
Two == {[[g \in Fields |-> OkState] EXCEPT ![f] = [s |-> a, n |-> 1], ![e] = [s |-> b, n |-> 1]] :
          f, e \in Fields, a, b \in {"ok", "bad", "missing"}}
GInit == x \in CASE Mode = "dialog" -> {[mode |-> "dialog", c |-> Pick(k, 9, <<1, 40, 700>>), d |-> Dialog(Seed * 1000 + k)] : k \in 1..Num}
                     \cup {[mode |-> "dialog", c |-> 1, d |-> [Dialog(Seed) EXCEPT !.decoded = l]] : l \in Lists}
                     \cup {[mode |-> "dialog", c |-> 1, d |-> [Dialog(Seed + 1) EXCEPT !.status = s]] : s \in 100..999}
                     \cup {[mode |-> "dialog", c |-> 1, d |-> [Dialog(Seed + 2) EXCEPT !.method = Methods[m], !.url = Urls[u], !.version = Versions[v]]]
                             : m \in 1..10, u \in 1..9, v \in 1..5}
                 [] Mode = "record" -> {[mode |-> "record", f |-> m] : m \in {o \in One : Fits(o)} \cup Two}
GNext == x # <<>> /\ PrintT(<<"GEN", ToJson(x)>>) /\ x' = <<>>
=============================================================================
