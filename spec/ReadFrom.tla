------------------------------ MODULE ReadFrom ------------------------------
(***************************************************************************)
(* Reading a body from a source under limits: what can be observed at the  *)
(* source (reads), at the operating system (temporary file, writes) and in *)
(* the result, whatever the algorithm.  All quantities are in bytes.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT Focus       \* properties to judge: subset of {"C03", "C04", "C05"}

VARIABLES cfg,       \* [est, M, R, buf, dir]: estimate, maximum, memory
                     \* threshold, largest buffer, usable temporary directory?
          consumed,  \* bytes delivered by the source so far
          written,   \* bytes of those written to the temporary file
          tmp,       \* number of temporary files created
          eof,       \* the source reported its end
          fault,     \* the environment let something fail for good
          done,      \* the result, once there
          ev

fvars == <<cfg, consumed, written, tmp, eof, fault, done>>
Judge(p) == p \in Focus
Slack(c) == 2 * c.buf

Start(c) ==
    /\ cfg = c
    /\ consumed = 0 /\ written = 0 /\ tmp = 0
    /\ eof = FALSE /\ fault = FALSE /\ done = "no"
    /\ ev = [op |-> "init"]

\* A read of up to req bytes from the source. got: bytes delivered, 0 at the
\* end; or how it failed: "intr" is to be retried, "err" is final.
Src(req, got, how) ==
    /\ done = "no" /\ ~fault
    /\ req > 0 /\ got <= req
    /\ ~eof \/ got = 0
    /\ consumed' = consumed + got
    /\ eof' = (eof \/ (how = "ok" /\ got = 0))
    /\ fault' = (fault \/ how = "err")
    /\ UNCHANGED <<cfg, written, tmp, done>>
    /\ ev' = [op |-> "src", req |-> req, got |-> got, how |-> how]

\* Creation of a temporary file
Tmp(ok) ==
    /\ done = "no" /\ (~fault \/ ~ok)
    /\ tmp = 0
    /\ Judge("C04") => cfg.est > cfg.R \/ consumed > cfg.R    \* not without need
    /\ tmp' = IF ok THEN 1 ELSE 0
    /\ fault' = (fault \/ ~ok)
    /\ UNCHANGED <<cfg, consumed, written, eof, done>>
    /\ ev' = [op |-> "tmp", ok |-> ok]

\* A write to the temporary file. n: bytes written.  After a failure a rest may
\* still be written, of no consequence to the result.
Wr(req, n, how) ==
    /\ done = "no"
    /\ tmp = 1 /\ n <= req
    /\ written' = written + n
    /\ fault \/ written' <= consumed
    /\ fault' = (fault \/ how = "err")
    /\ UNCHANGED <<cfg, consumed, tmp, eof, done>>
    /\ ev' = [op |-> "wr", req |-> req, n |-> n, how |-> how]

\* Any other call on the temporary file (positioning, truncating)
Other(how) ==
    /\ done = "no" /\ tmp = 1
    /\ fault' = (fault \/ how = "err")
    /\ UNCHANGED <<cfg, consumed, written, tmp, eof, done>>
    /\ ev' = [op |-> "other", how |-> how]

InRam == consumed = 0 \/ (cfg.est <= cfg.R /\ consumed <= cfg.R)

\* same: the body's bytes are the source's
ResOk(len, ram, same) ==
    /\ done = "no" /\ eof
    /\ same /\ len = consumed
    /\ consumed <= cfg.M
    /\ Judge("C04") => /\ ram = InRam
                       /\ ~ram => written = consumed /\ tmp = 1
    /\ done' = "ok"
    /\ UNCHANGED <<cfg, consumed, written, tmp, eof, fault>>
    /\ ev' = [op |-> "ok", len |-> len, ram |-> ram, same |-> same]

ResTooLong(len) ==
    /\ done = "no"
    /\ cfg.M < len /\ len <= consumed
    /\ done' = "toolong"
    /\ UNCHANGED <<cfg, consumed, written, tmp, eof, fault>>
    /\ ev' = [op |-> "toolong", len |-> len]

ResIo ==
    /\ done = "no"
    /\ fault                             \* only if something did fail
    /\ done' = "io"
    /\ UNCHANGED <<cfg, consumed, written, tmp, eof, fault>>
    /\ ev' = [op |-> "io"]

\* After the result was dropped: files left in the temporary directory
Left(n) ==
    /\ done # "no" /\ done # "left"
    /\ Judge("C04") => n = 0
    /\ done' = "left"
    /\ UNCHANGED <<cfg, consumed, written, tmp, eof, fault>>
    /\ ev' = [op |-> "left", n |-> n]

-----------------------------------------------------------------------------
\* C03: the source is not read far beyond the maximum
MaxRespected == Judge("C03") => consumed <= cfg.M + Slack(cfg)
\* C04: what is held in memory stays bounded
RamRespected == Judge("C04") => consumed - written <= cfg.R + Slack(cfg)
\* C03: no result for too much
ResultExact == done = "ok" => eof /\ consumed <= cfg.M
=============================================================================
