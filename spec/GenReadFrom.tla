---------------------------- MODULE GenReadFrom -----------------------------
(* Configurations and sources for reading a body, at and around every      *)
(* boundary.  L = -1 is an endless source.                                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Fam           \* "small" (byte exact) or "large" (real buffer sizes)
VARIABLE x

Small == { s \in [L : -1..9, est : {0, 1, 2, 3, 4, 5, 9}, M : 0..6, R : 0..4,
                  br : {1, 3}, bf : {1, 4}, chunk : {1, 2, 99}, intr : {0, 2}] :
             /\ s.R <= s.M
             /\ s.est \in {0, s.R, s.R + 1, 9} }

LargeR == {0, 1, 2000, 9000, 40000}
Large == UNION { UNION { UNION {
   { [L |-> L, est |-> e, M |-> M, R |-> R, br |-> b[1], bf |-> b[2], chunk |-> c, intr |-> i] :
       L \in {-1, 0, 1, R, R + 1, M, M + 1, M + 300000} \cup {IF R > 0 THEN R - 1 ELSE 0, IF M > 0 THEN M - 1 ELSE 0},
       e \in {0, R, R + 1, M + 1},
       c \in {700, 5000, 999999}, i \in {0, 3} }
   : b \in {<<8192, 65536>>, <<1500, 3000>>, <<1024, 1024>>, <<1025, 20000>>} }
   : M \in {R, R + 1, R + 20000} }
   : R \in LargeR }

\* Limits and estimates of the largest value there is, for which Top stands
Top == 1073741824
NoLimit == { [L |-> L, est |-> e, M |-> Top, R |-> R, br |-> b[1], bf |-> b[2], chunk |-> c, intr |-> 0] :
               L \in {0, 1, 9000, 300000}, e \in {0, 5000, Top - 1, Top}, R \in {0, 5000, Top},
               b \in {<<8192, 65536>>, <<1500, 3000>>}, c \in {700, 999999} }

GInit == x \in (IF Fam = "small" THEN Small ELSE Large \cup NoLimit)
GNext == /\ x # <<>>
         /\ PrintT(<<"GEN", ToJson(x)>>)
         /\ x' = <<>>
=============================================================================
