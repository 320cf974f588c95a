----------------------------- MODULE SpanQueue -----------------------------
(* What the queue models of the queue simulator promise (src/pqsim): runs of  *)
(* values in descending order are pushed, a pop gives the largest value there *)
(* is and removes every occurrence of it. So what is kept is a set of values. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE live
Range(run) == {run[i] : i \in DOMAIN run}
Descending(run) == run # <<>> /\ \A i \in 1..(Len(run) - 1) : run[i] > run[i + 1]
New == live' = {}
Push(run) == Descending(run) /\ live' = live \cup Range(run)
Pop(v) == v \in live /\ (\A w \in live : w <= v) /\ live' = live \ {v}
Empty(r) == r = (live = {}) /\ UNCHANGED live

-----------------------------------------------------------------------------
CONSTANTS Values, MaxRun
Runs == {r \in UNION {[1..n -> Values] : n \in 1..MaxRun} : Descending(r)}
Init == live = {}
Next == (\E r \in Runs : Push(r)) \/ (\E v \in Values : Pop(v)) \/ Empty(live = {})
Spec == Init /\ [][Next]_live
\* popping never gives a larger value than the pop before it unless something was pushed in between
Sorted == [][(\E v \in Values : Pop(v)) => \A w \in live' : w < CHOOSE v \in live : v \notin live']_live
=============================================================================
