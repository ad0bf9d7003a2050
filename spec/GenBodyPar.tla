----------------------------- MODULE GenBodyPar -----------------------------
(* Behaviours in two phases: images are made in the shared slots, then each *)
(* of several threads works on its own slots, cloning from, reading and     *)
(* writing out the shared images.  Threads touch no other's objects (module *)
(* Body, Independent), so the steps of different threads commute and the    *)
(* recorded steps of real threads may be validated one thread after another.*)
EXTENDS Body, TLC, Json, FiniteSets
CONSTANTS Shared, Threads, Build, Depth
VARIABLES h, ph, nx

GFile == <<101, 102, 103, 104, 105, 106>>
Own(t) == {t * 10 + 1, t * 10 + 2, t * 10 + 3}
GIds == Shared \cup UNION {Own(t) : t \in Threads}

GInit == Init /\ h = <<>> /\ ph = "build" /\ nx = 1

Log(t) == h' = Append(h, [t |-> t, e |-> ev']) /\ UNCHANGED ph

BuildStep ==
    /\ ph = "build" /\ Len(h) < Build
    /\ \E i \in Shared :
       \/ \E how \in {"ram", "fs"} : NewSink(i, how, TRUE, "none") /\ UNCHANGED nx
       \/ \E op \in {"push", "write"}, k \in 1..3 :
             Put(i, op, [x \in 1..k |-> nx + x - 1], TRUE, "none") /\ nx' = nx + k
       \/ WriteBack(i, TRUE, TRUE, "none") /\ UNCHANGED nx
       \/ Is(i, "sink") /\ obj[i].c # <<>> /\ Prepare(i, TRUE, "none") /\ UNCHANGED nx
       \/ FromSlice(i, [x \in 1..4 |-> nx + x - 1]) /\ nx' = nx + 4
       \/ FromFile(i, 5) /\ UNCHANGED nx
       \/ FromReadSlice(i, 1, 5) /\ UNCHANGED nx
       \/ MemMap(i, TRUE, "none") /\ UNCHANGED nx
    /\ Log(0)

Ready == \A i \in Shared : Is(i, "image")
Fork == ph = "build" /\ Ready /\ ph' = "run" /\ UNCHANGED <<obj, ev, nx, h>>

Run ==
    /\ ph = "run" /\ Len(h) < Depth
    /\ \E t \in Threads :
       /\ \/ \E i \in Shared \cup Own(t), j \in Own(t) : Clone(i, j)
          \/ \E i \in Shared \cup Own(t), j \in Own(t) : NewReader(i, j)
          \/ \E i \in Shared \cup Own(t) : Is(i, "image") /\ WriteTo(i, -1, TRUE, "none", obj[i].c)
          \/ \E r \in Own(t), n \in 1..3 : Is(r, "reader")
                /\ Read(r, n, TRUE, "none", Prefix(Min(n, Len(obj[r].c)), obj[r].c))
          \/ \E r \in Own(t) : Is(r, "reader") /\ ReadAll(r, TRUE, "none", obj[r].c)
          \/ \E i \in Own(t) : MemMap(i, TRUE, "none") \/ Gather(i) \/ Explode(i) \/ Drop(i)
       /\ Log(t)
    /\ UNCHANGED nx
Done == /\ ph = "run" /\ Len(h) = Depth
        /\ PrintT(<<"GEN", ToJson(h)>>)
        /\ ph' = "end" /\ UNCHANGED <<obj, ev, nx, h>>
GNext == BuildStep \/ Run \/ Fork \/ Done
=============================================================================
