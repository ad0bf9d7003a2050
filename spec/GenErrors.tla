----------------------------- MODULE GenErrors ------------------------------
EXTENDS RecGen, TLC, Json, IOUtils
VARIABLE x
Num == atoi(IOEnv.NUM)
Seed == atoi(IOEnv.SEED)
\* Operation and cause
Pairs == <<<<"read", "sys">>, <<"push", "sys">>, <<"save", "sys">>, <<"back", "sys">>, <<"fs", "sys">>, <<"map", "sys">>,
           <<"out", "sys">>, <<"from", "sys">>, <<"from", "src">>, <<"out", "dst">>, <<"from", "long">>,
           <<"ropen", "sys">>, <<"wopen", "sys">>, <<"ropen", "absent">>, <<"wopen", "absent">>,
           <<"bwrite", "sys">>, <<"bwrite", "sys">>, <<"bread", "sys">>, <<"bread", "sys">>, <<"bread", "cut">>,
           <<"bread", "long">>, <<"bread", "type">>, <<"bread", "comp">>, <<"bread", "hex">>, <<"bread", "magic">>,
           <<"bread", "short">>, <<"bread", "header">>, <<"bread", "field">>,
           <<"dec", "sys">>, <<"dec", "long">>, <<"dec", "cut">>, <<"dec", "unsup">>,
           <<"stream", "sys">>, <<"sink", "sys">>, <<"sink", "long">>,
           <<"http", "refused">>, <<"http", "reset">>, <<"http", "reslen">>, <<"http", "absent">>, <<"http", "long">>, <<"http", "stated">>>>
Errnos == <<5, 12, 13, 23, 24, 27, 28, 30, 122>>
IoKinds == <<"Other", "ConnectionReset", "TimedOut", "InvalidData", "UnexpectedEof", "PermissionDenied", "BrokenPipe", "NotFound">>
Files == <<"fs", "back", "fslice">>
AnyForm == Forms
\* No digit, of either case
NoHex == <<0, 32, 47, 58, 64, 71, 96, 103, 122, 127, 128, 255>>
\* Where the numbers of a head are
Digits == [k \in 1..12 |-> 5 + k] \o [k \in 1..5 |-> 21 + k] \o [k \in 1..5 |-> 27 + k]
          \o [k \in 1..10 |-> 33 + k] \o [k \in 1..5 |-> 44 + k]
NoFlag == <<0, 32, 48, 67, 97, 112, 122, 127, 128, 255>>
Fields == <<"url", "method", "version", "status", "decoded">>
Bads(f) == CASE f = "url" -> <<"", "http://a b/", "http://">>
             [] f = "method" -> <<"", "GE T", "G@T">>
             [] f = "version" -> <<"", "HTTP/9.9", "http/1.1", "1.1">>
             [] f = "status" -> <<"", "20x OK", "OK">>
             [] f = "decoded" -> <<"foo", "gzip2", "deflated">>
Case(w, i) ==
  LET p == Pairs[1 + (i % Len(Pairs))]
      what == p[1]
      cause == p[2]
      f == Pick(w, 20, Fields)
      n == 1 + (Mix(w, 2) % 6)
      c == Pick(w, 3, <<1, 40, 700, 9000, 70000>>)
      max == IF cause \in {"long", "stated"} THEN Mix(w, 10) % (n * c) ELSE n * c + 10
      v == [j \in 1..n |-> Mix(w, 30 + j) % 120]
      bad == Pick(w, 21, Bads(f))
  IN [what |-> what, cause |-> cause, v |-> v, c |-> c, n |-> n * c,
      form |-> IF cause = "dst" THEN Pick(w, 4, AnyForm) ELSE IF what = "bwrite" THEN Pick(w, 4, AnyForm) ELSE Pick(w, 4, Files),
      form2 |-> Pick(w, 5, AnyForm),
      z |-> CASE what \in {"bread", "bwrite"} /\ cause \in {"sys", "cut", "none"} -> Pick(w, 6, <<"none", "gzip", "brotli">>)
              [] what = "bread" /\ cause = "long" -> Pick(w, 6, <<"gzip", "brotli">>)
              [] what = "dec" -> Pick(w, 6, <<"Gzip", "Deflate", "Brotli">>)
              [] OTHER -> "none",
      errno |-> Pick(w, 7, Errnos), iok |-> Pick(w, 8, IoKinds), mark |-> 1 + (Mix(w, 9) % 1000),
      max |-> max,
      ram |-> IF what = "sink" /\ cause = "sys" THEN 0 ELSE Mix(w, 11) % (max + 1),
      \* Which byte (of the numbers of the head, or of it cut short) and its value
      at |-> CASE cause = "hex" -> Pick(w, 12, Digits) [] cause = "magic" -> Mix(w, 12) % 6
               [] cause = "short" -> 20 + (Mix(w, 12) % 34) [] OTHER -> Mix(w, 12) % 1000,
      byte |-> IF cause = "hex" THEN Pick(w, 13, NoHex) ELSE IF cause = "magic" THEN Pick(w, 13, <<0, 49, 88, 98>>) ELSE Pick(w, 13, NoFlag),
      pol |-> Pick(w, 14, <<"direct", "permit", "dispatch">>), bt |-> Pick(w, 15, <<"bytes", "uni">>),
      br |-> Pick(w, 16, <<64, 8192>>), bf |-> Pick(w, 17, <<64, 65536>>), fix |-> Mix(w, 18) % 100,
      field |-> f, val |-> IF bad = "" THEN "" ELSE IF f = "decoded" THEN "chunked, " \o bad \o ", gzip" ELSE bad,
      bad |-> bad]
GInit == x \in {[w |-> Seed * 2000 + k, i |-> k] : k \in 1..Num}
GNext == x # <<>> /\ PrintT(<<"GEN", ToJson(Case(x.w, x.i))>>) /\ x' = <<>>
=============================================================================
