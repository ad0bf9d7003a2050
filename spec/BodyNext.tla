------------------------------ MODULE BodyNext ------------------------------
(* Body with bounded choices: the operations a client may issue, and what  *)
(* the environment may do to them.  Pushed content is always fresh, so that *)
(* order and origin of every cell can be told.                              *)
EXTENDS Body

CONSTANTS MaxPut,       \* cells per write
          MaxFresh,     \* fresh cells in a behaviour
          Faults        \* subset of {"none", "hard"}

VARIABLE nx             \* next fresh cell value

vars == <<obj, ev, nx>>

Fresh(k) == [x \in 1..k |-> nx + x - 1]

Outcomes(F(_, _)) == \E flt \in Faults : \E ok \in BOOLEAN :
                        (~ok => flt = "hard") /\ F(ok, flt)

Step ==
  \/ \E i \in Ids, how \in {"ram", "fs"} :
        LET A(ok, flt) == NewSink(i, how, ok, flt) IN Outcomes(A) /\ UNCHANGED nx
  \/ \E i \in Ids, op \in {"push", "write", "save"}, k \in 0..MaxPut :
        /\ nx + k <= MaxFresh + 1
        /\ LET A(ok, flt) == Put(i, op, Fresh(k), ok, flt) IN Outcomes(A)
        /\ nx' = nx + k
  \/ \E i \in Ids, dir \in BOOLEAN :
        /\ \E flt \in Faults, ok \in BOOLEAN : WriteBack(i, dir, ok, flt)
        /\ UNCHANGED nx
  \/ \E i \in Ids : LET A(ok, flt) == Prepare(i, ok, flt) IN Outcomes(A) /\ UNCHANGED nx
  \/ \E i \in Ids, k \in 0..MaxPut :
        /\ nx + k <= MaxFresh + 1
        /\ FromSlice(i, Fresh(k))
        /\ nx' = nx + k
  \/ \E i \in Ids, n \in 0..Len(FileC) : FromFile(i, n) /\ UNCHANGED nx
  \/ \E i \in Ids, a, b \in 0..Len(FileC) : FromReadSlice(i, a, b) /\ UNCHANGED nx
  \/ \E i, j \in Ids : Clone(i, j) /\ UNCHANGED nx
  \/ \E i \in Ids : LET A(ok, flt) == MemMap(i, ok, flt) IN Outcomes(A) /\ UNCHANGED nx
  \/ \E i \in Ids : Gather(i) /\ UNCHANGED nx
  \/ \E i \in Ids : Is(i, "image") /\ (\E k \in 0..Len(obj[i].c) :
        LET A(ok, flt) == WriteTo(i, -1, ok, flt, Prefix(k, obj[i].c)) IN Outcomes(A))
        /\ UNCHANGED nx
  \/ \E i \in Ids : Is(i, "image") /\ (\E k \in 0..Min(MaxPut, Len(obj[i].c) - 1) :
        WriteTo(i, k, FALSE, "none", Prefix(k, obj[i].c)))
        /\ UNCHANGED nx
  \/ \E i \in Ids : Explode(i) /\ UNCHANGED nx
  \/ \E i, r \in Ids : NewReader(i, r) /\ UNCHANGED nx
  \/ \E r \in Ids, n \in 0..MaxPut + 1 : Is(r, "reader") /\ (\E k \in 0..Min(n, Len(obj[r].c)) :
        LET A(ok, flt) == Read(r, n, ok, flt, Prefix(k, obj[r].c)) IN Outcomes(A))
        /\ UNCHANGED nx
  \/ \E r \in Ids : Is(r, "reader") /\ (\E k \in 0..Len(obj[r].c) :
        LET A(ok, flt) == ReadAll(r, ok, flt, Prefix(k, obj[r].c)) IN Outcomes(A))
        /\ UNCHANGED nx
  \/ \E i \in Ids : Drop(i) /\ UNCHANGED nx

SpecInit == Init /\ nx = 1
Spec == SpecInit /\ [][Step]_vars
View == <<obj, nx>>
=============================================================================
