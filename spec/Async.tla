------------------------------- MODULE Async --------------------------------
(***************************************************************************)
(* Asynchronous streams of body images and sinks of bodies, competing for  *)
(* permits of one semaphore and for one pool thread.                        *)
(*                                                                         *)
(* An event e is what was done and what was observed: OK(e) tells whether   *)
(* it is allowed, Post(e) how the state changes.  Every event carries       *)
(*   wk: the tasks whose last used waker was called since their last poll,  *)
(*   av: the permits available afterwards.                                  *)
(* Where a task was polled, or the pool made one step, it also carries      *)
(*   io: file operations and accesses to mapped memory made meanwhile, each *)
(*       with the thread it was made on and the permits available then,     *)
(*   flt: "none", "soft" or "hard", the fault injected into these.          *)
(*                                                                         *)
(* Results of polls are not fixed beyond what matters: a poll may report    *)
(* pending at any time if it wakes its task; what is delivered, when it may *)
(* wait, and where work is done is fixed.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Focus         \* The property to judge, or "all"
VARIABLES cfg,          \* p: permits, c: bytes per cell, item: bytes per
                        \* item split, bfs: bytes per file read
          task,         \* streams and sinks
          held,         \* permits the environment holds
          closed,       \* is the semaphore closed?
          woke          \* tasks woken since their last poll

Slots == 1..4
Judge(p) == Focus \in {p, "all"}
Range(s) == {s[i] : i \in 1..Len(s)}
IsPrefix(s, t) == Len(s) <= Len(t) /\ s = SubSeq(t, 1, Len(s))
Suffix(n, s) == SubSeq(s, n + 1, Len(s))

None == [k |-> "none", on |-> "-"]
\* on: what a task is waiting for: "-" nothing, "self" its turn, "sem", "pool"
\* job: its operation with the pool: "-", "q"ueued, "ok", "bad" (failed), "lost"
\* spur: number of times in a row it asked to be polled again
Stream(e) == [k |-> "str", pol |-> e.pol, ram |-> e.ram, n |-> Len(e.cells) * cfg.c,
              rest |-> e.cells, left |-> Len(e.cells) * cfg.c,
              on |-> "-", job |-> "-", spur |-> 0, item |-> FALSE, failed |-> FALSE]
\* pend: the item sent but not known to be added, if any
SinkT(e) == [k |-> "snk", pol |-> e.pol, fs |-> e.fs, body |-> e.pre, pend |-> <<>>,
             max |-> e.max, mram |-> e.mram,
             on |-> "-", job |-> "-", spur |-> 0, failed |-> FALSE]

Total(s) == (Len(s.body) + Len(s.pend)) * cfg.c
TooLong(s) == s.pend # <<>> /\ Total(s) > s.max
\* Does continuing with s need file operations?
Blocks(s) ==
  IF s.k = "str" THEN ~s.ram /\ s.left > 0
  ELSE s.pend # <<>> /\ ~TooLong(s) /\ (s.fs \/ Total(s) > s.mram)

OnSem(s) == s.on = "sem"
\* Tasks granted a permit, which they have not been polled for yet
Granted == {t \in Slots : OnSem(task[t]) /\ t \in woke}

-----------------------------------------------------------------------------
\* C17: where work is done
IoAt(e, t) ==
  Judge("C17") =>
    \A i \in 1..Len(e.io) :
      LET x == e.io[i] IN
      CASE task[t].pol = "permit" ->
             closed \/ cfg.p - held - x.av - Cardinality(Granted \ {t}) >= 1
        [] task[t].pol = "dispatch" -> x.w = "pool"
        [] OTHER -> TRUE

\* C15: how much is read at once
Reads(e) == Judge("C15") =>
  \A i \in 1..Len(e.io) : e.io[i].c = "read" => e.io[i].n <= cfg.bfs

Failing(e, s) == e.flt = "hard" \/ s.job = "bad"
Excused(e, s) == Failing(e, s) \/ s.job = "lost" \/ (closed /\ s.pol = "permit")

\* A poll of s reported pending: who will wake it?
MayWait(e, s) ==
  /\ Judge("C18") =>
       \/ e.self /\ s.spur < 3
       \/ ~e.self /\ s.pol = "permit" /\ Blocks(s)
       \/ ~e.self /\ s.pol = "dispatch" /\ Blocks(s) /\ s.job \in {"-", "q"}
  /\ Judge("C17") => e.self \/ Blocks(s)
  /\ Judge("C19") => e.self \/ ~((closed /\ s.pol = "permit") \/ s.job = "lost")

Waiting(e, s) ==
  [s EXCEPT !.on = IF e.self THEN "self"
                   ELSE CASE s.pol = "permit" -> "sem" [] s.pol = "dispatch" -> "pool" [] OTHER -> "-",
            !.job = IF ~e.self /\ s.pol = "dispatch" /\ s.job = "-" THEN "q" ELSE s.job,
            !.spur = IF e.self THEN s.spur + 1 ELSE 0]
Ready(s) == [s EXCEPT !.on = "-", !.spur = 0, !.job = IF s.job = "lost" THEN "lost" ELSE "-"]

-----------------------------------------------------------------------------
\* Streams

AfterPoll(e) ==
  LET s == task[e.t] IN
  CASE e.r = "pend" -> [Waiting(e, s) EXCEPT !.item = FALSE]
    [] e.r = "item" -> [Ready(s) EXCEPT !.rest = Suffix(Len(e.got), s.rest), !.left = s.left - e.nb, !.item = TRUE]
    [] e.r = "err"  -> [Ready(s) EXCEPT !.failed = TRUE, !.item = FALSE]
    [] OTHER        -> [Ready(s) EXCEPT !.item = FALSE]

\* As an HTTP body: hint in bytes (-1: not one), eos (2: not one)
Http(e, s) ==
  /\ e.hint \in {-1, s.n, s.left}
  /\ e.eos \in {2, IF s.left = 0 THEN 1 ELSE 0}

PollOK(e) ==
  LET s == task[e.t] IN
  /\ s.k = "str"
  /\ e.r \in {"pend", "item", "end", "err"}
  /\ Judge("C15") =>
       /\ e.r = "item" => /\ e.nb > 0 /\ e.nb <= s.left
                          /\ IsPrefix(e.got, s.rest)
                          /\ s.pol = "split" => e.nb <= cfg.item
       /\ e.r = "end" => (s.left = 0 /\ s.rest = <<>>) \/ s.failed
       /\ e.r = "err" => Excused(e, s)
       /\ Failing(e, s) => e.r = "err"
       /\ Http(e, AfterPoll(e))
  /\ e.r = "pend" => MayWait(e, s)
  /\ Judge("C18") => (s.pol \in {"yield", "split"} /\ s.item /\ s.left > 0 => e.r = "pend")
  /\ Judge("C19") => /\ (s.job = "lost" /\ ~s.failed => e.r = "err")
                     /\ (e.r = "err" => Excused(e, s))
  /\ IoAt(e, e.t) /\ Reads(e)

-----------------------------------------------------------------------------
\* Sinks: "ready", "flush" and "close" all first add the item sent

AfterPut(e) ==
  LET s == task[e.t] IN
  CASE e.r = "pend" -> Waiting(e, s)
    [] e.r = "ok"   -> [Ready(s) EXCEPT !.body = s.body \o s.pend, !.pend = <<>>,
                          !.fs = s.fs \/ (s.pend # <<>> /\ Total(s) > s.mram)]
    [] e.r = "long" -> [Ready(s) EXCEPT !.pend = <<>>]
    [] OTHER        -> [Ready(s) EXCEPT !.pend = <<>>, !.failed = TRUE]

PutOK(e) ==
  LET s == task[e.t] IN
  /\ s.k = "snk"
  /\ e.r \in {"pend", "ok", "err", "long"}
  /\ Judge("C16") =>
       /\ e.r = "long" => TooLong(s) /\ e.n = Total(s)
       /\ TooLong(s) => e.r \in {"long", "pend"}
       /\ e.r = "err" => Excused(e, s)
  /\ e.r = "pend" => MayWait(e, s)
  /\ Judge("C19") => /\ (s.job = "lost" /\ ~s.failed => e.r = "err")
                     /\ (e.r = "err" => Excused(e, s))
  /\ IoAt(e, e.t)

SendOK(e) ==
  LET s == [task[e.t] EXCEPT !.pend = e.cells] IN
  /\ task[e.t].k = "snk" /\ task[e.t].pend = <<>>
  /\ e.r \in {"ok", "long"}
  /\ Judge("C16") => (e.r = "long" => TooLong(s) /\ e.n = Total(s))
  /\ IoAt(e, e.t)
AfterSend(e) ==
  [task[e.t] EXCEPT !.pend = IF e.r = "ok" THEN e.cells ELSE <<>>]

\* The body inside, after all was flushed
InnerOK(e) ==
  LET s == task[e.t] IN
  /\ s.k = "snk" /\ s.pend = <<>>
  /\ Judge("C16") => e.got = s.body /\ e.ram = ~s.fs

-----------------------------------------------------------------------------
\* The pool made one step, with the operation of task t (which may be gone)
StepOK(e) ==
  /\ Judge("C17") => \A i \in 1..Len(e.io) : e.io[i].w = "pool"
  /\ task[e.t].k = "str" => Reads(e)
AfterStep(e) ==
  LET s == task[e.t] IN
  IF s.k # "none" /\ s.job = "q"
  THEN [s EXCEPT !.job = IF e.lost THEN "lost" ELSE IF e.flt = "hard" THEN "bad" ELSE "ok"]
  ELSE s

-----------------------------------------------------------------------------
TaskAfter(e) ==
  CASE e.op = "str"  -> [task EXCEPT ![e.t] = Stream(e)]
    [] e.op = "snk"  -> [task EXCEPT ![e.t] = SinkT(e)]
    [] e.op = "poll" -> [task EXCEPT ![e.t] = AfterPoll(e)]
    [] e.op \in {"ready", "flush", "close"} -> [task EXCEPT ![e.t] = AfterPut(e)]
    [] e.op = "send" -> [task EXCEPT ![e.t] = AfterSend(e)]
    [] e.op \in {"inner", "drop"} -> [task EXCEPT ![e.t] = None]
    [] e.op = "step" -> [task EXCEPT ![e.t] = AfterStep(e)]
    [] OTHER -> task
HeldAfter(e) ==
  CASE e.op = "hold" -> IF e.ok THEN held + 1 ELSE held
    [] e.op = "rel" -> held - 1
    [] OTHER -> held
ClosedAfter(e) == closed \/ e.op = "shut"

\* In what follows an event, is every task woken that can continue, and are
\* all permits accounted for?
SchedOK(e) ==
  LET tk == TaskAfter(e)
      wk == Range(e.wk)
      W == {t \in Slots : OnSem(tk[t])}
      A == W \cap wk
  IN /\ Judge("C18") => /\ ~ClosedAfter(e) /\ e.av > 0 => W = A
                        /\ \A t \in Slots : tk[t].on = "pool" /\ tk[t].job # "q" => t \in wk
                        /\ ClosedAfter(e) => W = A
     /\ Judge("C19") => /\ ~ClosedAfter(e) => e.av = cfg.p - HeldAfter(e) - Cardinality(A)
                        /\ ClosedAfter(e) => W = A
                        /\ \A t \in Slots : tk[t].on = "pool" /\ tk[t].job = "lost" => t \in wk

\* Nobody is woken, nothing is left to release or run, yet a task waits
StallOK ==
  /\ ~Judge("C18")
  /\ Judge("C19") => ~closed /\ \A t \in Slots : task[t].k = "none" \/ task[t].job # "lost"

OpOK(e) ==
  CASE e.op = "str"  -> /\ task[e.t].k = "none"
                        /\ Judge("C15") => Http(e, Stream(e))
    [] e.op = "snk"  -> task[e.t].k = "none"
    [] e.op = "poll" -> PollOK(e)
    [] e.op = "trail" -> Judge("C15") => e.none
    [] e.op \in {"ready", "flush", "close"} -> PutOK(e)
    [] e.op = "send" -> SendOK(e)
    [] e.op = "inner" -> InnerOK(e)
    [] e.op = "step" -> StepOK(e)
    [] e.op \in {"drop", "hold", "rel", "shut"} -> TRUE
    [] e.op = "stall" -> StallOK
    [] e.op = "fin" -> Judge("C19") => e.av = cfg.p
    [] OTHER -> FALSE

OK(e) == OpOK(e) /\ SchedOK(e)
Post(e) ==
  /\ task' = TaskAfter(e) /\ held' = HeldAfter(e) /\ closed' = ClosedAfter(e)
  /\ woke' = Range(e.wk)
  /\ UNCHANGED cfg

AInit == task = [t \in Slots |-> None] /\ held = 0 /\ closed = FALSE /\ woke = {}
=============================================================================
