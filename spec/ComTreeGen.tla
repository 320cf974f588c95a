---------------------------- MODULE ComTreeGen ----------------------------
(* All behaviours of ComTree of a given length, as scripts. How far the room *)
(* grows is up to the code, so it is not part of the script.                 *)
EXTENDS ComTree
CONSTANT Depth
VARIABLES hist, n
Log(op) == hist' = hist \o op \o ";" /\ n' = n + 1
T(x) == " " \o ToString(x)
Room(k, need) == IF cap[k] >= need THEN cap[k] ELSE need
GenInit == Init /\ hist = "" /\ n = 0
GenStep ==
  /\ n < Depth
  /\ \E k \in Slots :
       \/ \E v \in Values : PushBack(k, v, Room(k, Len(s[k]) + 1)) /\ Log("p" \o T(k) \o T(v))
       \/ PopBack(k, cap[k]) /\ Log("o" \o T(k))
       \/ Clear(k, cap[k]) /\ s[k] # <<>> /\ Log("c" \o T(k))
       \/ Grow(k, cap[k] + 1) /\ Log("g" \o T(k))
       \/ \E v \in Values : s[k] # <<>> /\ s[k][Len(s[k])] # v /\ Write(k, Len(s[k]), v, cap[k]) /\ Log("w" \o T(k) \o T(Len(s[k])) \o T(v))
       \/ \E f \in Slots : \/ Copy(k, f, 0, Len(s[f])) /\ Log("y" \o T(k) \o T(f) \o " 0")
                           \/ Move(k, f, cap[f], 0) /\ Log("m" \o T(k) \o T(f))
                           \/ k < f /\ Swap(k, f) /\ Log("x" \o T(k) \o T(f))
  /\ IF n' = Depth THEN PrintT(<<"SCRIPT", hist'>>) ELSE TRUE
GenSpec == GenInit /\ [][GenStep]_<<ctvars, hist, n>>
GenView == hist
=============================================================================
