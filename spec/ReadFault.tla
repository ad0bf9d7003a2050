----------------------------- MODULE ReadFault ------------------------------
(***************************************************************************)
(* Reading an archive of given records while system calls fail (hard), are  *)
(* interrupted or transfer less than asked for (soft).  pos is the index of *)
(* the record next to be read, or 0 where that isn't known after a failure. *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT Unknown
VARIABLE pos

Init(first) == pos = first
\* The fault class of a call which was not affected is "none"
Clean(flt) == flt \in {"none", "soft"}

NewReader(flt, ok) ==
  \/ ok /\ pos' = 1
  \/ ~ok /\ flt = "hard" /\ pos' = Unknown
Seek(flt, ok, k) ==
  \/ ok /\ pos' = k
  \/ ~ok /\ flt = "hard" /\ pos' = Unknown
\* recs: contents; k, c: outcome and content
Read(recs, flt, k, c) ==
  /\ pos # Unknown
  /\ \/ k = "rec" /\ pos <= Len(recs) /\ c = recs[pos] /\ pos' = pos + 1
     \/ k = "none" /\ pos = Len(recs) + 1 /\ pos' = pos
     \/ k = "err" /\ flt = "hard" /\ pos' = Unknown
\* The bodies of a record that was read, at any time later
Bodies(recs, flt, i, k, c) ==
  /\ pos' = pos
  /\ \/ k = "ok" /\ c = recs[i]
     \/ k = "err" /\ flt = "hard"
=============================================================================
