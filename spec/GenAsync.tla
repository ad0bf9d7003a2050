------------------------------ MODULE GenAsync ------------------------------
(* Schedules for transfers: every transition of the state graph of AsyncAlg *)
(* for small mixes, and drawn schedules for mixes of larger transfers.       *)
EXTENDS AsyncAlg, RecGen, Json, IOUtils
VARIABLES ev, on
F == FALSE
GenMixes ==
  {<<Str(a, F, 2), Str(b, F, 1)>> : a \in {"permit", "dispatch"}, b \in {"permit", "dispatch"}}
  \cup {<<Snk(a, F, 1, 3, <<1, 0, 2>>), Str(b, F, 1)>> : a \in {"permit", "dispatch"}, b \in {"permit", "dispatch"}}
  \cup {<<Snk("permit", TRUE, 0, 1, <<1, 1>>), Snk("permit", F, 0, 2, <<1>>)>>,
        <<Str("yield", F, 2), Str("permit", TRUE, 1)>>, <<Str("split", F, 2), Snk("direct", F, 1, 2, <<1, 1>>)>>}
BigMixes == GenMixes \cup
  {<<Str("permit", F, 2), Str("permit", F, 1), Str("permit", F, 1)>>,
   <<Snk("permit", F, 0, 3, <<1, 2>>), Str("permit", F, 1), Str("dispatch", F, 1)>>,
   <<Snk("dispatch", F, 0, 2, <<2>>), Snk("permit", F, 0, 2, <<2>>), Str("permit", F, 1)>>}

GView == <<on, cfg, task, held, closed, woke, q, asg, jobs, todo, ph, used>>
GInit == Start(<<>>, 1) /\ on = FALSE /\ ev = <<>>
GNext ==
  \/ /\ ~on /\ on' = TRUE
     /\ \E mix \in Mixes : \E p \in Permits :
          /\ ev' = [op |-> "mix", p |-> p, mix |-> mix]
          /\ cfg' = CfgOf(p) /\ task' = [t \in Slots |-> TaskOf(t, mix)]
          /\ todo' = [t \in Slots |-> TodoOf(t, mix)] /\ ph' = [t \in Slots |-> PhOf(t, mix)]
          /\ UNCHANGED <<held, closed, woke, q, asg, jobs, used>>
  \/ on /\ UNCHANGED on /\ \E x \in Steps : Take(x) /\ ev' = x.e
Edge == PrintT(<<"EDGE", ToJson(GView), ToJson(ev'), ToJson(GView')>>)

-----------------------------------------------------------------------------
\* Drawn: c, item, bfs
Dims == <<<<1, 1, 1>>, <<1, 2, 3>>, <<5, 3, 7>>, <<5, 100, 4>>, <<300, 128, 200>>,
          <<300, 600, 64>>, <<5000, 4096, 2000>>, <<5000, 16384, 65536>>, <<40000, 16384, 8192>>>>
AForms == <<"fs", "fs", "back", "map", "fslice", "mslice", "ram", "gath", "slice">>
SPols == <<"permit", "permit", "dispatch", "dispatch", "direct", "split", "yield">>
KPols == <<"permit", "permit", "dispatch", "dispatch", "direct">>
BufT(w, i) == Pick(w, i, <<"bytes", "uni", "loss">>)
Fresh(w, i, n) == [j \in 1..n |-> Mix(w, i + j) % 120]
NewOf(w, t, d) ==
  LET i == 1000 * t IN
  IF Mix(w, i) % 5 < 3
  THEN [op |-> "str", t |-> t, pol |-> Pick(w, i + 1, SPols), frm |-> Pick(w, i + 2, AForms),
        bt |-> BufT(w, i + 3), hb |-> Pick(w, i + 4, <<TRUE, FALSE>>), cells |-> Fresh(w, i + 10, Mix(w, i + 5) % 6)]
  ELSE LET max == d[1] * (Mix(w, i + 5) % 6) + Pick(w, i + 6, <<0, 0, 0, 1>>)
           m0 == d[1] * (Mix(w, i + 7) % 4) + Pick(w, i + 8, <<0, 0, 0, 1, -1>>)
           pre == Mix(w, i + 9) % 3
       IN [op |-> "snk", t |-> t, pol |-> Pick(w, i + 1, KPols), fs |-> Mix(w, i + 2) % 4 = 0, bt |-> BufT(w, i + 3),
           pre |-> Fresh(w, i + 20, pre), mram |-> IF m0 < 0 THEN 0 ELSE IF m0 > max THEN max ELSE m0, max |-> max]
\* What is done next, mostly something with a task
OpOf(w, k, nt) ==
  LET v == Mix(w, 5000 + 7 * k) % 40
      t == 1 + (Mix(w, 5001 + 7 * k) % nt)
      m == Mix(w, 5002 + 7 * k) % 2
  IN IF v < 14 THEN [op |-> Pick(w, 5003 + 7 * k, <<"poll", "poll", "ready", "ready", "flush", "close">>), t |-> t, w |-> m]
     ELSE IF v < 21 THEN [op |-> "poll", t |-> t, w |-> m]
     ELSE IF v < 26 THEN [op |-> "send", t |-> t, map |-> m = 1, cells |-> Fresh(w, 9000 + 10 * k, Mix(w, 5004 + 7 * k) % 4)]
     ELSE IF v < 32 THEN [op |-> "step", lost |-> Mix(w, 5005 + 7 * k) % 8 = 0]
     ELSE IF v < 34 THEN [op |-> "hold"]
     ELSE IF v < 37 THEN [op |-> "rel"]
     ELSE IF v = 37 THEN [op |-> "inner", t |-> t]
     ELSE IF v = 38 THEN [op |-> IF m = 1 THEN "drop" ELSE "poll", t |-> t, w |-> 0]
     ELSE [op |-> IF Mix(w, 5005 + 7 * k) % 6 = 0 THEN "shut" ELSE "step", lost |-> FALSE]
Script(w) ==
  LET d == Pick(w, 1, Dims)
      nt == 1 + (Mix(w, 2) % 3)
      no == 4 + (Mix(w, 4) % 40)
  IN [p |-> 1 + (Mix(w, 3) % 2), c |-> d[1], item |-> d[2], bfs |-> d[3],
      ops |-> [k \in 1..(nt + no) |-> IF k <= nt THEN NewOf(w, k, d) ELSE OpOf(w, k, nt)]]
Num == atoi(IOEnv.NUM)
Seed == atoi(IOEnv.SEED)
DInit == Start(<<>>, 1) /\ on = FALSE /\ ev \in {Script(Seed * 20000 + k) : k \in 1..Num}
DNext == ~on /\ PrintT(<<"GEN", ToJson(ev)>>) /\ on' = TRUE
         /\ UNCHANGED <<ev, cfg, task, held, closed, woke, q, asg, jobs, todo, ph, used>>
=============================================================================
