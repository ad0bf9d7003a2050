----------------------------- MODULE GenBuilds ------------------------------
EXTENDS Builds, GenSystem
CONSTANTS Brotli
Who(w) == Pick(w, 61, <<"self", "self", "other">>)
\* Where brotli is not in the build, what it is used for is always compressed
Strat(w, who) ==
  LET z == StratOf(w)
  IN IF br \/ z.k # "brotli" THEN z
     ELSE IF who = "other" THEN [z EXCEPT !.f = TRUE] ELSE [z EXCEPT !.k = "gzip"]
Coded(w, who) == ~br /\ Strat(w, who).k = "brotli"
None2(n) == [i \in 1..n |-> FALSE]
InArchives(w) ==
  \/ Len(arch[A(w)]) < MaxRecs /\ BWrite(A(w), D(w), Coded(w, Who(w)), Who(w))
        /\ Rec([op |-> "write", a |-> A(w), d |-> D(w), z |-> Strat(w, Who(w)), new |-> Flag(w, 9), who |-> Who(w)])
  \/ (\E r \in {"ok", "err"} : BRead(A(w), I(w), D(w), r))
        /\ Rec([op |-> "read", a |-> A(w), i |-> I(w), d |-> D(w), l |-> Lim(w), new |-> Flag(w, 9)])
  \/ Len(arch[N(w)]) < MaxRecs /\ (\E r \in {"ok", "err"} : BCopyRec(A(w), I(w), N(w), FALSE, r))
        /\ Rec([op |-> "cprec", a |-> A(w), i |-> I(w), b |-> N(w), l |-> Lim(w), z |-> Strat(w, "self"), new |-> Flag(w, 9)])
  \/ arch[A(w)] # <<>> /\ Stays /\ Rec([op |-> "scan", a |-> A(w), l |-> Lim(w), who |-> Who(w)])
  \/ LET z == Pick(w, 62, <<"none", "gzip", "brotli">>) IN
     /\ arch[A(w)] # <<>> /\ Len(arch[3 - A(w)]) + Readable(A(w)) <= MaxRecs
     /\ \E r \in {"ok", "err"} :
          Cp(A(w), 3 - A(w), z, r, IF z = "brotli" /\ ~br THEN <<>> ELSE None2(Readable(A(w))))
     /\ Rec([op |-> "cp", a |-> A(w), b |-> 3 - A(w), z |-> z])
  \/ Mix(w, 1) % 6 = 0 /\ Record(A(w), "err") /\ Rec([op |-> "rec", a |-> A(w)])
  \/ Mix(w, 1) % 6 = 0 /\ Offer(TRUE, br) /\ Rec([op |-> "offer"])
  \/ Len(arch[A(w)]) > 1 /\ Mix(w, 1) % 3 = 0 /\ BReset(A(w)) /\ Rec([op |-> "reset", a |-> A(w)])
BDecoding(w) ==
  /\ Open(D(w)) /\ Safe(dlg[D(w)])
  /\ (\E r \in {"true", "false", "err"} : BDecode(D(w), r)) /\ Rec([op |-> "dec", d |-> D(w), l |-> Lim(w)])
BStep ==
  \/ \E w \in {Draw} : Alike(OfBodies(w))
  \/ \E w \in {Draw} : Alike(OfDialogs(w)) \/ BDecoding(w)
  \/ \E w \in {Draw} : InArchives(w)
BGInit == BInit(Brotli) /\ h = <<>>
BSimNext ==
  \/ Len(h) < Depth /\ BStep
  \/ Len(h) = Depth /\ PrintT(<<"GEN", ToJson(h)>>) /\ h' = Append(h, <<>>) /\ Stays
=============================================================================
