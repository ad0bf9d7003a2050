----------------------------- MODULE GenSystem ------------------------------
EXTENDS System, RecGen, TLC, Json
CONSTANTS Depth, MaxLen, MaxRecs
VARIABLES h
Draw == RandomElement(1..(1000000 + 0 * Len(h)))
Cells(w) == [k \in 1..(Mix(w, 1) % 4) |-> LET v == Mix(w, 1 + k) % 140 IN IF v < 20 THEN 200 + (v % 4) ELSE v]
AForms == <<"slice", "ram", "gath", "fs", "back", "map", "fslice", "mslice">>
Encs == <<"Gzip", "Deflate", "Brotli">>
Hdr(w, i) ==
  LET ns == Pick(w, i, <<<<>>, <<0>>, <<1>>, <<0, 1>>, <<1, 3>>, <<0, 2, 3, 7>>>>)
  IN [h |-> [j \in 1..Len(ns) |-> <<ns[j], [v \in 1..(1 + (Mix(w, i + 20 * j) % 3))
                                             |-> Mix(w, i + 20 * j + v) % 12]>>],
      b |-> Pick(w, i + 1, <<0, 0, 0, 1, 30, 200>>)]
\* Limits and buffers
Lim(w) == [mr |-> Pick(w, 21, <<0, 60, 1400, 8000, 1000000>>), br |-> Pick(w, 22, <<16, 300, 8192>>),
           bf |-> Pick(w, 23, <<16, 700, 65536>>), it |-> Pick(w, 24, <<7, 512, 100000>>)]
Pipe(w) == [s |-> Pick(w, 31, <<"direct", "split", "yield", "permit", "dispatch">>),
            k |-> Pick(w, 32, <<"direct", "permit", "dispatch">>), uni |-> Pick(w, 33, <<TRUE, FALSE>>),
            fs |-> Pick(w, 34, <<TRUE, FALSE, FALSE>>)]
\* Mostly the encoding that it has; no other than gzip can tell that it is not
Ce(w, b) == IF Mix(w, 41) % 6 = 0 THEN (IF b.v = <<>> \/ Mix(w, 42) % 2 = 0 THEN "" ELSE "Gzip")
            ELSE IF b.e = <<>> THEN "" ELSE Last(b.e)
Safe(g) == IF g.ce = "Gzip" THEN Fits(g) \/ g.s.v # <<>> \/ g.s.e # <<>> ELSE g.ce = "" \/ Fits(g)
Rec(op) == h' = Append(h, op)
\* Slots, as drawn
X(w) == 1 + (Mix(w, 51) % 3)
Y(w) == 1 + (Mix(w, 52) % 3)
Z(w) == 1 + (Mix(w, 53) % 3)
D(w) == 1 + (Mix(w, 54) % 2)
A(w) == 1 + (Mix(w, 55) % 2)
N(w) == 1 + (Mix(w, 56) % 2)
I(w) == 1 + (Mix(w, 57) % (IF arch[A(w)] = <<>> THEN 1 ELSE Len(arch[A(w)])))
Flag(w, i) == Mix(w, i) % 2 = 0
OfBodies(w) ==
  \/ Make(X(w), Cells(w)) /\ Rec([op |-> "make", x |-> X(w), f |-> Pick(w, 9, AForms), v |-> Cells(w)])
  \/ Same(X(w)) /\ Rec([op |-> "same", x |-> X(w), how |-> Pick(w, 9, <<"map", "gather", "clone", "stream">>)])
  \/ Move(X(w), Y(w))
        /\ Rec([op |-> "move", x |-> X(w), y |-> Y(w), how |-> Pick(w, 9, <<"clone", "read", "write", "explode">>), l |-> Lim(w)])
  \/ Move(X(w), Y(w))
        /\ Rec([op |-> "move", x |-> X(w), y |-> Y(w), how |-> "pipe", l |-> Lim(w), p |-> Pipe(w)])
  \/ Join(X(w), Z(w), Y(w)) /\ Len(body'[Y(w)].v) <= MaxLen
        /\ Rec([op |-> "join", x |-> X(w), z |-> Z(w), y |-> Y(w), l |-> Lim(w), p |-> Pipe(w)])
  \/ Encode(X(w), Y(w), Pick(w, 9, Encs)) /\ Len(body'[Y(w)].e) <= 2
        /\ Rec([op |-> "enc", x |-> X(w), y |-> Y(w), z |-> Pick(w, 9, Encs), f |-> Pick(w, 10, AForms), lvl |-> Pick(w, 11, <<1, 6>>)])
  \/ Mix(w, 1) % 3 = 0 /\ DropBody(X(w)) /\ Rec([op |-> "dropb", x |-> X(w)])
OfDialogs(w) ==
  \/ Held(Y(w)) /\ Start(D(w), X(w), Y(w), Mix(w, 3), Hdr(w, 1000), Hdr(w, 2000), Ce(w, body[Y(w)]))
        /\ Rec([op |-> "start", d |-> D(w), x |-> X(w), y |-> Y(w), n |-> Mix(w, 3), qh |-> Hdr(w, 1000), rh |-> Hdr(w, 2000),
                ce |-> Ce(w, body[Y(w)])])
  \/ Swap(D(w), X(w)) /\ Rec([op |-> "swap", d |-> D(w), x |-> X(w)])
  \/ Take(D(w), Flag(w, 1), X(w))
        /\ Rec([op |-> "take", d |-> D(w), x |-> X(w), res |-> Flag(w, 1), how |-> Pick(w, 9, <<"clone", "explode">>)])
  \/ Mix(w, 1) % 4 = 0 /\ DropDlg(D(w)) /\ Rec([op |-> "dropd", d |-> D(w)])
Decoding(w) ==
  /\ Open(D(w)) /\ Safe(dlg[D(w)])
  /\ (\E r \in {"true", "false", "err"} : Decode(D(w), r)) /\ Rec([op |-> "dec", d |-> D(w), l |-> Lim(w)])
OfArchives(w) ==
  \/ Len(arch[A(w)]) < MaxRecs /\ Write(A(w), D(w))
        /\ Rec([op |-> "write", a |-> A(w), d |-> D(w), z |-> StratOf(w), new |-> Flag(w, 9)])
  \/ Read(A(w), I(w), D(w))
        /\ Rec([op |-> "read", a |-> A(w), i |-> I(w), d |-> D(w), l |-> Lim(w), new |-> Flag(w, 9)])
  \/ Len(arch[N(w)]) < MaxRecs /\ CopyRec(A(w), I(w), N(w))
        /\ Rec([op |-> "cprec", a |-> A(w), i |-> I(w), b |-> N(w), l |-> Lim(w), z |-> StratOf(w), new |-> Flag(w, 9)])
  \/ arch[A(w)] # <<>> /\ Scan(A(w), arch[A(w)]) /\ Rec([op |-> "scan", a |-> A(w), l |-> Lim(w)])
  \/ Len(arch[A(w)]) > 1 /\ Mix(w, 1) % 3 = 0 /\ Reset(A(w)) /\ Rec([op |-> "reset", a |-> A(w)])
Step ==
  \/ \E w \in {Draw} : OfBodies(w)
  \/ \E w \in {Draw} : OfDialogs(w) \/ Decoding(w)
  \/ \E w \in {Draw} : OfArchives(w)
GInit == Init /\ h = <<>>
SimNext ==
  \/ Len(h) < Depth /\ Step
  \/ Len(h) = Depth /\ PrintT(<<"GEN", ToJson(h)>>) /\ h' = Append(h, <<>>) /\ UNCHANGED <<body, dlg, arch>>
=============================================================================
