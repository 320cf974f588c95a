------------------------------ MODULE SpanGen ------------------------------
(* All behaviours of SpanQueue of a given length, as scripts.               *)
EXTENDS SpanQueue, TLC
CONSTANT Depth
VARIABLES hist, n
Log(op) == hist' = hist \o op \o ";" /\ n' = n + 1
RECURSIVE Txt(_)
Txt(r) == IF r = <<>> THEN "" ELSE " " \o ToString(r[1]) \o Txt(Tail(r))
GenInit == Init /\ hist = "" /\ n = 0
GenStep ==
  /\ n < Depth
  /\ \/ \E r \in Runs : Push(r) /\ Log("p" \o Txt(r))
     \/ \E v \in live : Pop(v) /\ Log("o")
  /\ IF n' = Depth THEN PrintT(<<"SCRIPT", hist'>>) ELSE TRUE
GenSpec == GenInit /\ [][GenStep]_<<live, hist, n>>
GenView == hist
=============================================================================
