------------------------------- MODULE PQGen -------------------------------
(* Behaviours of PQ (without merging) written out as operation scripts.     *)
EXTENDS PQ, TLCExt
CONSTANTS Depth, Ops, Decs
VARIABLES hist, n

Log(op) == hist' = hist \o op \o ";" /\ n' = n + 1
Do(k) == k \in Ops
TopOf == CHOOSE h \in Handles : IsMax(h)

GenInit == live = None /\ dedup = FALSE /\ shown = 0 /\ out = {} /\ pushed = {} /\ hist = "" /\ n = 0
GenStep ==
  /\ n < Depth
  /\ \/ Do("p") /\ \E v \in Vals : Push(Fresh, v) /\ Log("p " \o ToString(v))
     \/ Do("r") /\ \E v, w \in Vals : v >= w /\ PushRange(<<Fresh, Fresh + 1>>, <<v, w>>) /\ Log("r " \o ToString(v) \o " " \o ToString(w))
     \/ Do("r3") /\ \E v, w, x \in Vals : v >= w /\ w >= x /\ PushRange(<<Fresh, Fresh + 1, Fresh + 2>>, <<v, w, x>>)
                    /\ Log("r " \o ToString(v) \o " " \o ToString(w) \o " " \o ToString(x))
     \/ Do("r0") /\ UNCHANGED pqvars /\ Log("r")
     \/ Do("o") /\ Handles # {} /\ (LET t == TopOf IN Pop(t, live[t].v)) /\ Log("o")
     \/ Do("d") /\ Handles # {} /\ \E k \in Decs : (LET t == TopOf IN
            live' = Drop({t}) @@ (Fresh :> [v |-> live[t].v - k, ids |-> {Fresh}]) /\ pushed' = pushed \cup {Fresh}
            /\ out' = out \cup live[t].ids /\ UNCHANGED <<dedup, shown>>) /\ Log("d " \o ToString(k))
     \/ Do("c") /\ Handles # {} /\ Clear /\ Log("c")
     \/ Do("m") /\ Move /\ Log("m")
  /\ IF n' = Depth THEN PrintT(<<"SCRIPT", hist'>>) ELSE TRUE
GenSpec == GenInit /\ [][GenStep]_<<pqvars, hist, n>>
GenView == hist
=============================================================================
