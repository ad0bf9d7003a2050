------------------------------ MODULE AsyncAlg ------------------------------
(***************************************************************************)
(* How the transfers of Async work: a task that needs to block asks the     *)
(* (first come, first served) semaphore or queues its operation with the    *)
(* pool, and tells its waker to both.  Checked here: everything this design *)
(* does is allowed by Async, and every set of transfers completes.          *)
(* Its state graph also provides the schedules replayed.                    *)
(***************************************************************************)
EXTENDS Async, TLC
CONSTANTS Mixes,        \* sets of transfers to start with
          Permits,      \* numbers of permits
          Holds,        \* permits the environment takes at most
          Env           \* which of "drop", "shut", "lose", "spur" may happen
VARIABLES q,            \* tasks waiting for a permit, in order
          asg,          \* those granted one
          jobs,         \* tasks with an operation queued, in order
          todo,         \* items still to send, by sink
          ph,           \* phase of each task: "run", "can" (send), "flush", "end"
          used          \* what Env did already

avars == <<cfg, task, held, closed, woke, q, asg, jobs, todo, ph, used>>

Str(pol, ram, n) == [k |-> "str", pol |-> pol, ram |-> ram, n |-> n]
Snk(pol, fs, mram, max, items) == [k |-> "snk", pol |-> pol, fs |-> fs, mram |-> mram, max |-> max, items |-> items]
Cells(n) == [j \in 1..n |-> j]

NewEv(t, m) ==
  IF m.k = "str"
  THEN [op |-> "str", t |-> t, pol |-> m.pol, ram |-> m.ram, cells |-> Cells(m.n),
        hint |-> m.n, eos |-> IF m.n = 0 THEN 1 ELSE 0]
  ELSE [op |-> "snk", t |-> t, pol |-> m.pol, fs |-> m.fs, pre |-> <<>>, mram |-> m.mram, max |-> m.max]

TaskOf(t, mix) ==
  IF t > Len(mix) THEN None
  ELSE IF mix[t].k = "str" THEN Stream(NewEv(t, mix[t])) ELSE SinkT(NewEv(t, mix[t]))
TodoOf(t, mix) == IF t <= Len(mix) /\ mix[t].k = "snk" THEN mix[t].items ELSE <<>>
PhOf(t, mix) == IF t <= Len(mix) THEN "run" ELSE "end"
CfgOf(p) == [p |-> p, c |-> 1, item |-> 1, bfs |-> 1]
Start(mix, p) ==
  /\ cfg = CfgOf(p)
  /\ task = [t \in Slots |-> TaskOf(t, mix)]
  /\ held = 0 /\ closed = FALSE /\ woke = {}
  /\ q = <<>> /\ asg = {} /\ jobs = <<>> /\ used = {}
  /\ todo = [t \in Slots |-> TodoOf(t, mix)]
  /\ ph = [t \in Slots |-> PhOf(t, mix)]
SInit == \E mix \in Mixes : \E p \in Permits : Start(mix, p)

-----------------------------------------------------------------------------
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>>
               ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SetToSeq(S \ {m})
Without(s, t) == SelectSeq(s, LAMBDA x : x # t)
\* Permits go to those waiting longest
RECURSIVE Grant(_, _, _)
Grant(qq, a, free) ==
  LET U == SelectSeq(qq, LAMBDA x : x \notin a) IN
  IF free <= 0 \/ U = <<>> THEN a ELSE Grant(qq, a \cup {U[1]}, free - 1)
Free(h, a) == cfg.p - h - Cardinality(a)

\* One step: event e, but for av and wk; queue and grants of the semaphore
\* before free permits are granted; tasks woken otherwise, or polled
Full(e, hd, qq, a, more, less) ==
  LET a2 == IF closed \/ e.op = "shut" THEN a ELSE Grant(qq, a, Free(hd, a))
      live == {t \in Slots : task[t].k # "none"} \ (IF e.op \in {"drop", "inner"} THEN {e.t} ELSE {})
  IN [e |-> [wk |-> SetToSeq(((woke \ less) \cup (a2 \ asg) \cup more) \cap live), av |-> Free(hd, a2)] @@ e,
      q |-> qq, asg |-> a2, jobs |-> jobs, todo |-> todo, ph |-> ph, used |-> used]

\* What a poll of t leads to, given the result of the work when it is done:
\* ready(io) is the event of it having been done now, io on this thread
Io(w, av) == <<[w |-> w, c |-> "io", n |-> 1, av |-> av]>>
Polled(t, ready(_), pend(_), err) ==
  LET s == task[t] IN
  CASE s.pol = "permit" /\ Blocks(s) ->
         IF closed THEN Full(err, held, Without(q, t), asg \ {t}, {}, {t})
         ELSE IF t \in asg THEN Full(ready(Io("poll", Free(held, asg))), held, Without(q, t), asg \ {t}, {}, {t})
         ELSE IF t \in Range(q) THEN Full(pend(FALSE), held, q, asg, {}, {t})
         ELSE IF Free(held, asg) > 0 THEN Full(ready(Io("poll", Free(held, asg) - 1)), held, q, asg, {}, {t})
         ELSE Full(pend(FALSE), held, Append(q, t), asg, {}, {t})
    [] s.pol = "dispatch" /\ (Blocks(s) \/ s.job # "-") ->
         CASE s.job = "-" -> [Full(pend(FALSE), held, q, asg, {}, {t}) EXCEPT !.jobs = Append(jobs, t)]
           [] s.job = "q" -> Full(pend(FALSE), held, q, asg, {}, {t})
           [] s.job \in {"bad", "lost"} -> Full(err, held, q, asg, {}, {t})
           [] OTHER -> Full(ready(<<>>), held, q, asg, {}, {t})
    [] OTHER -> Full(ready(<<>>), held, q, asg, {}, {t})

PollStream(t) ==
  LET s == task[t]
      base == [op |-> "poll", t |-> t, got |-> <<>>, nb |-> 0, io |-> <<>>, flt |-> "none", self |-> FALSE,
               hint |-> -1, eos |-> 2]
      ready(io) == IF s.left = 0 THEN [r |-> "end", io |-> io] @@ base
                   ELSE [r |-> "item", got |-> <<s.rest[1]>>, nb |-> 1, io |-> io] @@ base
      pend(self) == [r |-> "pend", self |-> self] @@ base
      err == [r |-> "err"] @@ base
  IN IF s.pol \in {"yield", "split"} /\ s.item THEN Full(pend(TRUE), held, q, asg, {t}, {t})
     ELSE LET x == Polled(t, ready, pend, err)
          IN [x EXCEPT !.ph[t] = IF x.e.r = "end" THEN "end" ELSE "run"]

PollSink(t, op) ==
  LET s == task[t]
      base == [op |-> op, t |-> t, n |-> 0, io |-> <<>>, flt |-> "none", self |-> FALSE]
      ready(io) == IF TooLong(s) THEN [r |-> "long", n |-> Total(s)] @@ base ELSE [r |-> "ok", io |-> io] @@ base
      pend(self) == [r |-> "pend", self |-> self] @@ base
      err == [r |-> "err"] @@ base
      x == Polled(t, ready, pend, err)
  IN [x EXCEPT !.ph[t] = IF x.e.r = "ok" /\ op = "ready" THEN "can"
                         ELSE IF x.e.r = "ok" /\ todo[t] = <<>> THEN "flushed" ELSE "run"]

Ready2(t) == task[t].on = "-" \/ t \in woke
Runnable(t) == ph[t] # "end" /\ (Ready2(t) \/ "spur" \in Env)
Sinks(t) ==
  LET s == task[t] IN
  (IF ph[t] \in {"run", "can"} /\ ~s.failed
   THEN (IF todo[t] # <<>> /\ ph[t] # "can" THEN {PollSink(t, "ready")} ELSE {})
        \cup (IF s.pend # <<>> \/ todo[t] = <<>> \/ "spur" \in Env THEN {PollSink(t, "flush")} ELSE {})
        \cup (IF todo[t] = <<>> THEN {PollSink(t, "close")} ELSE {})
   ELSE {})
  \cup (IF ph[t] = "run" /\ s.failed THEN {PollSink(t, "flush")} ELSE {})
  \cup (IF ph[t] = "can" /\ todo[t] # <<>>
        THEN {[Full([op |-> "send", t |-> t, cells |-> Cells(todo[t][1]), r |-> "ok", n |-> 0, io |-> <<>>, flt |-> "none"],
                    held, q, asg, {}, {}) EXCEPT !.ph[t] = "run", !.todo[t] = Tail(todo[t])]}
        ELSE {})
  \cup (IF ph[t] = "flushed"
        THEN {[Full([op |-> "inner", t |-> t, got |-> s.body, ram |-> ~s.fs], held, q, asg, {}, {t}) EXCEPT !.ph[t] = "end"]}
        ELSE {})

TaskSteps(t) ==
  IF ~Runnable(t) THEN {} ELSE IF task[t].k = "str" THEN {PollStream(t)} ELSE Sinks(t)

StepPool(lose) ==
  LET t == jobs[1]
      w == IF task[t].k # "none" /\ task[t].on = "pool" THEN {t} ELSE {}
  IN [Full([op |-> "step", t |-> t, lost |-> lose, flt |-> "none", io |-> Io("pool", 0)], held, q, asg, w, {})
        EXCEPT !.jobs = Tail(jobs), !.used = IF lose THEN used \cup {"lose"} ELSE used]

Taken == {x \in used : x \in {"h1", "h2", "h3"}}
RelSteps == IF held > 0 THEN {Full([op |-> "rel"], held - 1, q, asg, {}, {})} ELSE {}
PoolSteps == IF jobs # <<>> THEN {StepPool(FALSE)} ELSE {}
EnvSteps ==
  (IF Free(held, asg) > 0 /\ ~closed /\ Cardinality(Taken) < Holds
   THEN {[Full([op |-> "hold", ok |-> TRUE], held + 1, q, asg, {}, {}) EXCEPT
            !.used = used \cup {<<"h1", "h2", "h3">>[Cardinality(Taken) + 1]}]}
   ELSE {})
  \cup (IF jobs # <<>> /\ "lose" \in Env \ used THEN {StepPool(TRUE)} ELSE {})
  \cup (IF "shut" \in Env \ used
        THEN {[Full([op |-> "shut"], held, q, asg, Range(q), {}) EXCEPT !.used = used \cup {"shut"}]} ELSE {})
  \cup (IF "drop" \in Env \ used
        THEN {[Full([op |-> "drop", t |-> t], held, Without(q, t), asg \ {t}, {}, {t}) EXCEPT
                 !.used = used \cup {"drop"}, !.ph[t] = "end"] :
              t \in {u \in Slots : task[u].k # "none"}}
        ELSE {})

Steps == UNION {TaskSteps(t) : t \in Slots} \cup RelSteps \cup PoolSteps \cup EnvSteps
Take(x) == Post(x.e) /\ q' = x.q /\ asg' = x.asg /\ jobs' = x.jobs /\ todo' = x.todo /\ ph' = x.ph /\ used' = x.used
SNext == \E x \in Steps : Take(x)

\* Everything done is allowed
Conforms == \A x \in Steps : OK(x.e)
\* Permits are never more than granted, and nobody waits without need
Sound == /\ Cardinality(asg) + held <= cfg.p
         /\ asg \subseteq Range(q)
         /\ ~closed => (Free(held, asg) > 0 => asg = Range(q))

Done(t) == task[t].k = "none" \/ ph[t] = "end" \/ task[t].failed
TaskNext(t) == \E x \in TaskSteps(t) : Take(x) /\ Ready2(t)
Live == /\ SInit /\ [][SNext]_avars
        /\ \A t \in Slots : WF_avars(TaskNext(t))
        /\ WF_avars(\E x \in RelSteps : Take(x))
        /\ WF_avars(\E x \in PoolSteps : Take(x))
AllComplete == <>(\A t \in Slots : Done(t))
=============================================================================
