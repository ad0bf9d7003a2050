-------------------------------- MODULE Tune --------------------------------
(***************************************************************************)
(* The two settings builders: body settings (b), and transfer settings (f)  *)
(* which contain body settings as last finished.  Values are positions in    *)
(* an increasing table for each setting, 0 being the value zero; -1 is unset.*)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES b, f, img, snaps, ev

\* Defaults: memory threshold 192 KiB, maximum 1 GiB, buffers 8 and 64 KiB,
\* estimates of deflate 4, gzip 5 and brotli 6, items of 512 KiB, 60 s for
\* the body, direct blocking, the system's directory for temporary files
BDef == [ram |-> 3, max |-> 4, br |-> 2, bf |-> 3, sd |-> 2, sg |-> 3, sb |-> 4, dir |-> 0]
FDef == [item |-> 4, res |-> -1, body |-> 2, pol |-> 0]
NonZero == {"br", "bf", "sd", "sg", "sb", "item"}

Accepts(k, v) == ~(k \in NonZero /\ v = 0)
SetB(k, v, r) ==
  /\ r = IF Accepts(k, v) THEN "ok" ELSE "refused"
  /\ b' = IF Accepts(k, v) THEN [b EXCEPT ![k] = v] ELSE b
  /\ UNCHANGED <<f, img, snaps>>
SetF(k, v, r) ==
  /\ r = IF Accepts(k, v) THEN "ok" ELSE "refused"
  /\ f' = IF Accepts(k, v) THEN [f EXCEPT ![k] = v] ELSE f
  /\ UNCHANGED <<b, img, snaps>>

BValid == b.ram <= b.max
FinishB(r, got) ==
  /\ IF BValid THEN r = "ok" /\ got = b /\ snaps' = Append(snaps, [b |-> b, f |-> <<>>])
     ELSE r = "refused" /\ UNCHANGED snaps
  /\ UNCHANGED <<b, f, img>>
\* The transfer settings take the body settings of snapshot i
Image(i) == snaps[i].f = <<>> /\ img' = snaps[i].b /\ UNCHANGED <<b, f, snaps>>
FValid == f.res = -1 \/ f.body = -1 \/ f.res <= f.body
FinishF(r, got, gotb) ==
  /\ IF FValid THEN r = "ok" /\ got = f /\ gotb = img /\ snaps' = Append(snaps, [b |-> img, f |-> f])
     ELSE r = "refused" /\ UNCHANGED snaps
  /\ UNCHANGED <<b, f, img>>
\* Starting over, and reading a snapshot again later
ResetB == b' = BDef /\ UNCHANGED <<f, img, snaps>>
ResetF == f' = FDef /\ img' = BDef /\ UNCHANGED <<b, snaps>>
Look(i, got, gotf) == got = snaps[i].b /\ gotf = snaps[i].f /\ UNCHANGED <<b, f, img, snaps>>

Init == b = BDef /\ f = FDef /\ img = BDef /\ snaps = <<>> /\ ev = [op |-> "init"]
=============================================================================
