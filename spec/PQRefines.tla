------------------------------ MODULE PQRefines ------------------------------
(* PQ, whose entries have handles and which sees every merge on its own, is   *)
(* MergingPQ once handles are forgotten: what the models of the               *)
(* implementations refine is what the recorded runs are checked against.      *)
EXTENDS PQ
A == INSTANCE MergingPQ WITH Dedup <- TRUE, bag <- {live[h] : h \in Handles}, next <- Fresh
MergingQueue == [][
  \/ A!Look
  \/ \E v \in Vals : A!Push(v)
  \/ \E h \in Handles : \/ A!Pop(live[h])
                        \/ \E v \in Vals : A!Replace(live[h], v)
  \/ A!Clear
  \/ \E v, w \in Vals : live' = live @@ (Fresh :> [v |-> v, ids |-> {Fresh}]) @@ ((Fresh + 1) :> [v |-> w, ids |-> {Fresh + 1}])
  ]_pqvars
==============================================================================
