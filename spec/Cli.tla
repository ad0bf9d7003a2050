--------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The commands cat and cp.                                                 *)
(*                                                                         *)
(* A file is [n: number of intact records, dam: what follows these: none,   *)
(* or damage, missing (then n = 0), has: for each record the parts of it    *)
(* that are not empty].                                                     *)
(* A selection is [k: none, index, offset, or bad (not a number, both, or   *)
(* an offset where no record starts), at: first record (from 0),            *)
(* count: number of records or -1].                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
Min(a, b) == IF a < b THEN a ELSE b
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

Selects(s) == s.k # "none" \/ s.count # -1
Refused(fs, s) == s.k = "bad" \/ (Len(fs) > 1 /\ Selects(s))
\* Records selected of a file with n, as numbers from 1
Chosen(n, s) ==
  LET last == IF s.count = -1 THEN n ELSE Min(n, s.at + s.count) IN
  [i \in 1..(IF last > s.at THEN last - s.at ELSE 0) |-> s.at + i]
\* Damage after the intact records is in the way of what was asked for; or it
\* may be met as well as not.
Bad(f) == f.dam # "none"
MustFail(f, s) == Bad(f) /\ (s.count = -1 \/ (s.count > 0 /\ s.at + s.count > f.n) \/ f.dam = "missing")
MayFail(f, s) == Bad(f) /\ (MustFail(f, s) \/ s.at + s.count >= f.n)

\* Files up to and with the first that fails
RECURSIVE Upto(_, _, _)
Upto(fs, s, i) == IF i > Len(fs) THEN Len(fs) ELSE IF MustFail(fs[i], s) THEN i ELSE Upto(fs, s, i + 1)
Fails(fs, s) == \E i \in 1..Len(fs) : MustFail(fs[i], s)

\* --- cat -------------------------------------------------------------------
All == <<"m", "qh", "qb", "rh", "rb">>
Parts(ps) == IF ps = <<>> THEN All ELSE SelectSeq(All, LAMBDA p : \E i \in 1..Len(ps) : ps[i] = p)
Of(fs, i, r, ps) ==
  <<<<"sep", i, r>>>> \o
  [j \in 1..Len(SelectSeq(Parts(ps), LAMBDA p : p \in {fs[i].has[r][k] : k \in 1..Len(fs[i].has[r])}))
     |-> <<SelectSeq(Parts(ps), LAMBDA p : p \in {fs[i].has[r][k] : k \in 1..Len(fs[i].has[r])})[j], i, r>>]
Printed(fs, s, ps) ==
  Cat([i \in 1..Upto(fs, s, 1) |->
         Cat([k \in 1..Len(Chosen(fs[i].n, s)) |-> Of(fs, i, Chosen(fs[i].n, s)[k], ps)])])
CatOk(fs, s, ps, e) ==
  IF Refused(fs, s) THEN e.code # 0 /\ e.out = <<>>
  ELSE /\ e.out = Printed(fs, s, ps)
       /\ IF Fails(fs, s) THEN e.code # 0
          ELSE e.code = 0 \/ \E i \in 1..Len(fs) : MayFail(fs[i], s)

\* --- cp --------------------------------------------------------------------
\* old: number of records already in the output, as file 0.
Old(n) == [k \in 1..n |-> <<0, k>>]
Copied(fs, s) ==
  Cat([i \in 1..Upto(fs, s, 1) |->
         [k \in 1..Len(Chosen(fs[i].n, s)) |-> <<i, Chosen(fs[i].n, s)[k]>>]])
\* How a record of a kind may be stored with compression flag z
Modes(z, kind) == CASE z = "P" -> {"P"} [] kind = "text" -> {z} [] kind \in {"coded", "image"} -> {"P"}
                    [] OTHER -> {"P", z}
CpOk(fs, s, old, z, same, full, e) ==
  /\ e.inputs /\ e.clean /\ Prefix(Old(old), e.out)
  /\ \A k \in (old + 1)..Len(e.out) :
       e.mode[k] \in Modes(z, fs[e.out[k][1]].kind[e.out[k][2]])
  /\ IF same \/ Refused(fs, s) THEN e.code # 0 /\ e.out = Old(old) /\ e.kept
     ELSE IF Fails(fs, s) THEN e.code # 0 /\ Prefix(e.out, Old(old) \o Copied(fs, s))
     ELSE IF e.code = 0 THEN e.out = Old(old) \o Copied(fs, s)
     ELSE /\ full \/ \E i \in 1..Len(fs) : MayFail(fs[i], s)
          /\ Prefix(e.out, Old(old) \o Copied(fs, s))
  /\ e.kept
=============================================================================
