----------------------------- MODULE ReadFromAlg ----------------------------
(***************************************************************************)
(* The reading algorithm: fill memory buffers until little room is left;    *)
(* spill to a temporary file beyond the threshold; check the maximum as     *)
(* bytes are counted.  TLC checks that it implements ReadFrom for every     *)
(* small configuration and every behaviour of source and operating system.  *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Focus, MaxL, MaxLim, MaxBuf, Room

VARIABLES cfg, consumed, written, tmp, eof, fault, done, ev,
          src,      \* bytes the source has left
          br, bf,   \* buffer sizes
          ph,       \* phase: "start", "fill", "check", "spill", "fs", "fsw", "prep", "end"
          cap,      \* room left in the current buffer
          buf,      \* bytes in the current buffer
          held,     \* bytes in earlier memory buffers
          size,     \* bytes counted against the maximum
          out       \* bytes still to be written of the current write

R == INSTANCE ReadFrom

rvars == <<cfg, consumed, written, tmp, eof, fault, done, ev>>
avars == <<src, br, bf, ph, cap, buf, held, size, out>>

Init ==
    \E l \in 0..MaxL, e \in 0..MaxLim, m \in 0..MaxLim, r \in 0..MaxLim,
       x \in 1..MaxBuf, y \in 1..MaxBuf :
      /\ r <= m
      /\ R!Start([est |-> e, M |-> m, R |-> r, buf |-> IF x > y THEN x ELSE y])
      /\ src = l /\ br = x /\ bf = y
      /\ ph = "start" /\ cap = 0 /\ buf = 0 /\ held = 0 /\ size = 0 /\ out = 0

Start ==
    /\ ph = "start"
    /\ IF cfg.est > cfg.R
       THEN \/ R!Tmp(TRUE) /\ ph' = "fs" /\ cap' = bf
            \/ R!Tmp(FALSE) /\ ph' = "io" /\ cap' = 0
       ELSE UNCHANGED rvars /\ ph' = "fill" /\ cap' = br
    /\ UNCHANGED <<src, br, bf, buf, held, size, out>>

Min(a, b) == IF a < b THEN a ELSE b

Fill ==
    /\ ph = "fill"
    /\ \/ /\ R!Src(cap, 0, "intr")
          /\ UNCHANGED avars
       \/ /\ R!Src(cap, 0, "err") /\ ph' = "io"
          /\ UNCHANGED <<src, br, bf, cap, buf, held, size, out>>
       \/ \E n \in 1..Min(cap, src) :
          /\ R!Src(cap, n, "ok")
          /\ src' = src - n /\ cap' = cap - n /\ buf' = buf + n
          /\ ph' = IF cap' < Room THEN "check" ELSE "fill"
          /\ UNCHANGED <<br, bf, held, size, out>>
       \/ /\ src = 0 /\ R!Src(cap, 0, "ok") /\ ph' = "check"
          /\ UNCHANGED <<src, br, bf, cap, buf, held, size, out>>

Check ==
    /\ ph = "check"
    /\ IF buf = 0 THEN
         /\ ph' = "prep" /\ UNCHANGED <<rvars, src, br, bf, cap, buf, held, size, out>>
       ELSE IF size + buf > cfg.M THEN
         /\ R!ResTooLong(size + buf) /\ ph' = "end"
         /\ UNCHANGED <<src, br, bf, cap, buf, held, size, out>>
       ELSE IF size + buf > cfg.R THEN
         /\ \/ R!Tmp(TRUE) /\ ph' = "spill" /\ size' = size + buf /\ out' = held + buf
            \/ R!Tmp(FALSE) /\ ph' = "io" /\ UNCHANGED <<size, out>>
         /\ UNCHANGED <<src, br, bf, cap, buf, held>>
       ELSE
         /\ UNCHANGED rvars
         /\ held' = held + buf /\ size' = size + buf /\ buf' = 0 /\ cap' = br
         /\ ph' = "fill"
         /\ UNCHANGED <<src, br, bf, out>>

\* Write what is out, possibly in parts
Write ==
    /\ ph \in {"spill", "fsw"}
    /\ IF out = 0
       THEN /\ ph' = "fs" /\ cap' = bf /\ buf' = 0 /\ held' = 0
            /\ UNCHANGED <<rvars, src, br, bf, size, out>>
       ELSE \/ \E n \in 1..out : R!Wr(out, n, "ok") /\ out' = out - n
               /\ UNCHANGED <<src, br, bf, ph, cap, buf, held, size>>
            \/ R!Wr(out, 0, "intr") /\ UNCHANGED avars
            \/ R!Wr(out, 0, "err") /\ ph' = "io"
               /\ UNCHANGED <<src, br, bf, cap, buf, held, size, out>>

Fs ==
    /\ ph = "fs"
    /\ \/ R!Src(bf, 0, "intr") /\ UNCHANGED avars
       \/ R!Src(bf, 0, "err") /\ ph' = "io"
          /\ UNCHANGED <<src, br, bf, cap, buf, held, size, out>>
       \/ src = 0 /\ R!Src(bf, 0, "ok") /\ ph' = "prep"
          /\ UNCHANGED <<src, br, bf, cap, buf, held, size, out>>
       \/ \E n \in 1..Min(bf, src) :
          /\ R!Src(bf, n, "ok") /\ src' = src - n /\ size' = size + n
          /\ out' = n
          /\ ph' = IF size' > cfg.M THEN "long" ELSE "fsw"
          /\ UNCHANGED <<br, bf, cap, buf, held>>

Long == ph = "long" /\ R!ResTooLong(size) /\ ph' = "end"
        /\ UNCHANGED <<src, br, bf, cap, buf, held, size, out>>
Io   == ph = "io" /\ R!ResIo /\ ph' = "end"
        /\ UNCHANGED <<src, br, bf, cap, buf, held, size, out>>
Prep == ph = "prep" /\ ph' = "end"
        /\ R!ResOk(size, R!InRam, TRUE)
        /\ UNCHANGED <<src, br, bf, cap, buf, held, size, out>>
Left == ph = "end" /\ R!Left(0) /\ UNCHANGED avars

Next == Start \/ Fill \/ Check \/ Write \/ Fs \/ Long \/ Io \/ Prep \/ Left
        \/ (done = "left" /\ UNCHANGED <<rvars, avars>>)
Spec == Init /\ [][Next]_<<rvars, avars>> /\ WF_<<rvars, avars>>(Next)

\* Every step of the algorithm is a step the observable specification allows;
\* as its actions are used directly, a step they forbid shows as a deadlock.
MaxRespected == R!MaxRespected
RamRespected == R!RamRespected
ResultExact  == R!ResultExact
\* The bytes held in memory, as the algorithm knows them
Accounting == held + buf <= cfg.R + cfg.buf
View == <<cfg, consumed, written, tmp, eof, fault, done, src, br, bf, ph, cap, buf, held, size, out>>
=============================================================================
