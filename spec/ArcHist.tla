------------------------------ MODULE ArcHist -------------------------------
(* Histories of one archive file: writes in progress, completed or failed,  *)
(* and what readers observe meanwhile.  A scan is a reading from the start  *)
(* to the reported end; the order of records is known only from scans.      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads, Ids, Scans
VARIABLES holder,    \* thread with the writer, 0 for none
          begun,     \* writes in progress
          ended,     \* writes completed
          failed,    \* writes that reported an error
          seen,      \* longest sequence of records any scan has shown
          pre,       \* write -> writes completed before it began
          at,        \* write -> offset it returned, or -1
          lo         \* scan -> writes completed before it started
hist == <<holder, begun, ended, failed, seen, pre, at, lo>>

Range(s) == {s[k] : k \in 1..Len(s)}
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k]

HInit == /\ holder = 0 /\ begun = {} /\ ended = {} /\ failed = {} /\ seen = <<>>
         /\ pre = [i \in Ids |-> {}] /\ at = [i \in Ids |-> -1]
         /\ lo = [r \in Scans |-> {}]

\* At most one thread has a writer
CanAcq(t) == holder = 0
Acq(t) == /\ CanAcq(t) /\ holder' = t
          /\ UNCHANGED <<begun, ended, failed, seen, pre, at, lo>>
Rel(t) == /\ holder = t /\ holder' = 0
          /\ UNCHANGED <<begun, ended, failed, seen, pre, at, lo>>

Begin(t, i) == /\ holder = t
               /\ i \notin begun \cup ended \cup failed
               /\ begun' = begun \cup {i}
               /\ pre' = [pre EXCEPT ![i] = ended]
               /\ UNCHANGED <<holder, ended, failed, seen, at, lo>>

\* A write fails only for a reason; its record was not shown to anyone.
CanEnd(i, ok, off, hard) ==
  /\ i \in begun
  /\ IF ok THEN off >= 0 /\ \A j \in ended : at[j] # off
     ELSE hard /\ i \notin Range(seen)
End(t, i, ok, off, hard) ==
  /\ CanEnd(i, ok, off, hard)
  /\ begun' = begun \ {i}
  /\ IF ok THEN /\ ended' = ended \cup {i}
                /\ at' = [at EXCEPT ![i] = off]
                /\ UNCHANGED failed
     ELSE failed' = failed \cup {i} /\ UNCHANGED <<ended, at>>
  /\ UNCHANGED <<holder, seen, pre, lo>>

ScanStart(r) == /\ lo' = [lo EXCEPT ![r] = ended]
                /\ UNCHANGED <<holder, begun, ended, failed, seen, pre, at>>

\* A scan shows every write completed before it started, no failed one, each
\* once and at its offset, in an order all scans agree on and in which a
\* write completed before another began comes first.
CanScan(r, ids, offs, end) ==
  /\ end = "none"
  /\ Range(ids) \subseteq begun \cup ended
  /\ Cardinality(Range(ids)) = Len(ids)
  /\ IsPrefix(ids, seen) \/ IsPrefix(seen, ids)
  /\ lo[r] \subseteq Range(ids)
  /\ \A k \in 1..Len(ids) : pre[ids[k]] \subseteq {ids[j] : j \in 1..(k - 1)}
  /\ \A k \in 1..Len(ids) : at[ids[k]] # -1 => at[ids[k]] = offs[k]
ScanDone(r, ids, offs, end) ==
  /\ CanScan(r, ids, offs, end)
  /\ seen' = IF Len(ids) > Len(seen) THEN ids ELSE seen
  /\ UNCHANGED <<holder, begun, ended, failed, pre, at, lo>>

\* Reading at the offset a write returned gives that record.
CanSeek(i, got) == i \in ended /\ got = i
SeekRead(i, got) == CanSeek(i, got) /\ UNCHANGED hist

\* After the writer stopped for good, another append works and is addressable.
After(off, size, ok) == ok /\ off = size /\ UNCHANGED hist
=============================================================================
