------------------------------- MODULE PairGen -------------------------------
(* Every transition of PairsImpl between states that differ in the columns,   *)
(* their data objects, the top and the retired indexes, as an operation       *)
(* script: the shortest way there and then the call. The loop of pop and      *)
(* retireIndex runs to its end before the next call, as in the code.          *)
EXTENDS PairsImpl
VARIABLE hist
\* columns are only told apart up to what is still queued
GenInit == Init /\ hist = ""
S(x) == " " \o ToString(x)
RECURSIVE Rows(_, _, _)
Rows(c, s, key) == IF s = <<>> THEN "" ELSE S(s[1]) \o S(key[<<c, s[1]>>]) \o Rows(c, Tail(s), key)
Column == Rows(Q.cols, col[Q.cols], Q.key)
\* the call that a step belongs to is written when the call's outcome is known
Op ==
  CASE ev' = "skip" -> "K 1;"
    [] ev' = "add" -> "A" \o Column \o ";"
    [] ev' = "destroy" /\ pc = "compute" -> "x 1" \o Column \o ";"
    [] ev' = "destroy" /\ pc = "add" -> "y 1" \o Column \o ";"
    [] ev' = "pop" -> "o;"
    [] ev' = "retire" -> "R" \o S(CHOOSE i \in Q'.retired : i \notin Q.retired) \o ";"
    [] OTHER -> ""
GenStep == Next /\ hist' = hist \o Op /\ (pc' = "idle" => PrintT(<<"SCRIPT", hist'>>))
GenSpec == GenInit /\ [][GenStep]_<<vars, hist>>
Live == [p \in {q \in Q.pairs \cup Q.adding : q[1] \notin Q.retired /\ q[2] \notin Q.retired} |-> Q.key[p]]
GenView == <<col, obj, top, pc, Q.retired, Q.cols, Live>>
==============================================================================
