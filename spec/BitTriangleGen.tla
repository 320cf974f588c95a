--------------------------- MODULE BitTriangleGen ---------------------------
(* All behaviours of BitTriangle of a given length, as scripts.             *)
EXTENDS BitTriangle
CONSTANT Depth
VARIABLES hist, n
Log(op) == hist' = hist \o op \o ";" /\ n' = n + 1
B(v) == IF v THEN "1" ELSE "0"
GenInit == BInit /\ hist = "" /\ n = 0
GenStep ==
  /\ n < Depth
  /\ \/ cols < MaxCols /\ AddColumn /\ Log("c")
     \/ \E x, y \in 0..(MaxCols - 1), v \in BOOLEAN :
          \/ SetBit(x, y, v) /\ Log("s " \o ToString(x) \o " " \o ToString(y) \o " " \o B(v))
          \/ SetBitUnordered(x, y, v) /\ Log("u " \o ToString(x) \o " " \o ToString(y) \o " " \o B(v))
  /\ IF n' = Depth THEN PrintT(<<"SCRIPT", hist'>>) ELSE TRUE
GenSpec == GenInit /\ [][GenStep]_<<bvars, hist, n>>
GenView == hist
=============================================================================
