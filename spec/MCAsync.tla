------------------------------- MODULE MCAsync ------------------------------
(* The design of AsyncAlg checked for small mixes of transfers *)
EXTENDS AsyncAlg
F == FALSE
Items == <<1, 0, 2>>
MCMixes ==
  {<<Str(a, F, 2), Str(b, F, 1)>> : a \in {"permit", "dispatch", "yield"}, b \in {"permit", "dispatch"}}
  \cup {<<Str("permit", F, 2), Str("permit", F, 1), Str("permit", F, 1)>>,
        <<Str("permit", F, 1), Str("dispatch", F, 1), Str("permit", F, 1)>>,
        <<Str("permit", TRUE, 2), Str("dispatch", TRUE, 1)>>}
  \cup {<<Snk(a, F, 1, 3, Items), Str(b, F, 1)>> : a \in {"permit", "dispatch", "direct"}, b \in {"permit", "dispatch"}}
  \cup {<<Snk("permit", TRUE, 0, 1, <<1, 1>>), Snk("permit", F, 0, 2, <<1>>)>>,
        <<Snk("dispatch", F, 0, 2, <<2>>), Snk("permit", F, 0, 2, <<2>>)>>}
LiveMixes ==
  {<<Str("permit", F, 2), Str("permit", F, 1), Str("permit", F, 1)>>,
   <<Snk("permit", F, 0, 3, <<1, 2>>), Str("permit", F, 1), Str("yield", F, 2)>>,
   <<Snk("dispatch", F, 1, 3, <<1, 2>>), Str("dispatch", F, 2), Str("permit", F, 1)>>}
=============================================================================
