------------------------------ MODULE PairRuns ------------------------------
(* The pair queue for columns that are runs of rows, ordered by row: what     *)
(* PairQueue says for very many pairs, in a form that TLC can evaluate. The   *)
(* refinement is checked for small runs.                                      *)
EXTENDS Integers, FiniteSets, Sequences, TLC

VARIABLES
  cols,   \* number of columns
  runs,   \* column -> <<first, last>> row that is queued, columns with none left out
  now     \* length of the run being added, -1: none

rvars == <<cols, runs, now>>
NoRuns == [c \in {} |-> <<0, 0>>]
Size(r) == r[2] - r[1] + 1
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE x \in S : TRUE IN Size(runs[c]) + Total(S \ {c})

RInit == cols = 0 /\ runs = NoRuns /\ now = -1
BeginRun(n) == now = -1 /\ 0 < n /\ n <= cols /\ now' = n /\ UNCHANGED <<cols, runs>>
EndRun ==
  /\ now > 0
  /\ runs' = (cols :> <<cols - now, cols - 1>>) @@ runs
  /\ cols' = cols + 1 /\ now' = -1
Skip(n) == now = -1 /\ cols' = cols + n /\ UNCHANGED <<runs, now>>
IsTop(p) == p[1] \in DOMAIN runs /\ p[2] = runs[p[1]][2] /\ {c \in DOMAIN runs : runs[c][2] > p[2]} = {}
ShowTop(p) == IsTop(p) /\ UNCHANGED rvars
PopTop(p) ==
  /\ now = -1 /\ IsTop(p)
  /\ runs' = IF Size(runs[p[1]]) = 1 THEN [c \in DOMAIN runs \ {p[1]} |-> runs[c]] ELSE [runs EXCEPT ![p[1]][2] = @ - 1]
  /\ UNCHANGED <<cols, now>>
Count(n) == n = Total(DOMAIN runs) /\ UNCHANGED rvars
Columns(n) == n = cols /\ UNCHANGED rvars
IsEmpty(r) == r = (DOMAIN runs = {}) /\ UNCHANGED rvars

-----------------------------------------------------------------------------
CONSTANT Most
RNext ==
  \/ cols < Most /\ \E n \in 1..Most : BeginRun(n)
  \/ EndRun
  \/ cols < Most /\ Skip(1)
  \/ \E c \in DOMAIN runs : PopTop(<<c, runs[c][2]>>)
RSpec == RInit /\ [][RNext]_rvars

AllPairs == UNION {{<<c, r>> : r \in runs[c][1]..runs[c][2]} : c \in DOMAIN runs}
Adding == IF now > 0 THEN {<<cols, r>> : r \in (cols - now)..(cols - 1)} ELSE {}
Abs == INSTANCE PairQueue WITH
  pairs <- AllPairs,
  key <- [p \in {q \in (0..Most) \X (0..Most) : q[2] < q[1]} |-> p[2]],
  retired <- {}, adding <- Adding,
  data <- [x \in {} |-> 0], blank <- TRUE, popped <- <<>>, MaxCols <- Most, Keys <- {}
\* the order is fixed from the start here, so that adding a column does not change it
Refines == [][\/ \E n \in 1..Most : now = -1 /\ now' = n /\ Adding = {} /\ Adding' = {<<cols, r>> : r \in (cols - n)..(cols - 1)} /\ UNCHANGED <<AllPairs, cols>>
              \/ Abs!EndAdd \/ Abs!SkipColumns(1)
              \/ \E p \in AllPairs : Abs!Pop(p)]_rvars
Counted == Total(DOMAIN runs) = Cardinality(AllPairs)
TopsAgree == \A p \in AllPairs : IsTop(p) => Abs!IsMaxPair(p)
SomeTop == AllPairs # {} => \E p \in AllPairs : IsTop(p)
=============================================================================
