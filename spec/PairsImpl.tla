------------------------------ MODULE PairsImpl ------------------------------
(* mathic/PairQueue.h: a queue of columns, each with the rows it still has in *)
(* descending order and one data object, which holds the data of its first    *)
(* row. The queue of columns is MergingPQ's (TourImpl refines it): its top is *)
(* some column whose first pair is not smaller than any other's. pop and      *)
(* retireIndex loop; the steps of the loop are steps here. Checked by TLC:    *)
(* every step is a step of PairQueue, between calls the top is what PairQueue *)
(* says it is, and the loop ends.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxCols, Keys, Support
VARIABLES
  col,    \* column -> the rows it still has: the columns in the queue
  obj,    \* column -> the pair its data object holds
  top,    \* the column on top of the queue, or -1
  pc,     \* "idle", "loop": in pop's loop, "add": in addColumnDescending
  Q,      \* history: PairQueue's variables
  ev
vars == <<col, obj, top, pc, Q, ev>>
NoCol == [c \in {} |-> 0]

A == INSTANCE PairQueue WITH
  cols <- Q.cols, pairs <- Q.pairs, key <- Q.key, retired <- Q.retired, adding <- Q.adding,
  data <- obj, blank <- Q.blank, popped <- <<>>

Pair(c) == <<c, col[c][1]>>
Tops(cs) == \* cs: column -> rows
  {c \in DOMAIN cs : \A d \in DOMAIN cs : Q.key[<<d, cs[d][1]>>] <= Q.key[<<c, cs[c][1]>>]}
\* some column is on top; a queue with one column has no choice
ChooseTop(cs) == IF DOMAIN cs = {} THEN {-1} ELSE Tops(cs)
Retired(c, cs) == c \in Q.retired \/ cs[c][1] \in Q.retired
Without(f, c) == [x \in DOMAIN f \ {c} |-> f[x]]

Init ==
  /\ col = NoCol /\ obj = NoCol /\ top = -1 /\ pc = "idle" /\ ev = "new"
  /\ Q = [cols |-> 0, pairs |-> {}, key |-> NoCol, retired |-> {}, adding |-> {}, blank |-> TRUE]

\* all orders of R that descend in key f
Orders(R, f) ==
  {s \in [1..Cardinality(R) -> R] :
     /\ {s[k] : k \in DOMAIN s} = R
     /\ \A k \in 1..(Cardinality(R) - 1) : f[s[k]] >= f[s[k + 1]]}

AddEmpty ==
  /\ pc = "idle" /\ Q.cols < MaxCols
  /\ Q' = [Q EXCEPT !.cols = @ + 1] /\ ev' = "skip"
  /\ UNCHANGED <<col, obj, top, pc>>
BeginAdd ==
  /\ pc = "idle" /\ Q.cols < MaxCols
  /\ \E R \in SUBSET (0..(Q.cols - 1) \ Q.retired) \ {{}} : \E f \in [R -> Keys] : \E s \in Orders(R, f) :
       /\ Q' = [Q EXCEPT !.adding = {<<Q.cols, r>> : r \in R},
                         !.key = [p \in {<<Q.cols, r>> : r \in R} |-> f[p[2]]] @@ @]
       /\ col' = col @@ (Q.cols :> s)       \* built, not in the queue yet
       /\ ev' = "begin"
  /\ pc' = "new" /\ UNCHANGED <<obj, top>>
NewObject ==
  /\ pc = "new" /\ obj' = obj @@ (Q.cols :> <<>>) /\ pc' = "compute" /\ ev' = "newdata"
  /\ UNCHANGED <<col, top, Q>>
ComputeFirst ==
  /\ pc = "compute" /\ obj' = [obj EXCEPT ![Q.cols] = Pair(Q.cols)] /\ pc' = "add" /\ ev' = "compute"
  /\ UNCHANGED <<col, top, Q>>
\* the computation or a comparison of the new column throws: the object is destroyed, then nothing is left
Undo ==
  /\ pc \in {"compute", "add"}
  /\ obj' = Without(obj, Q.cols) /\ col' = Without(col, Q.cols) /\ pc' = "undone" /\ ev' = "destroy"
  /\ UNCHANGED <<top, Q>>
FailAdd ==
  /\ pc = "undone" /\ Q' = [Q EXCEPT !.adding = {}] /\ pc' = "idle" /\ ev' = "fail"
  /\ UNCHANGED <<col, obj, top>>
EndAdd ==
  /\ pc = "add"
  /\ top' \in (ChooseTop(col) \cap {top, Q.cols}) \cup (IF top = -1 THEN {Q.cols} ELSE {})
  /\ Q' = [Q EXCEPT !.pairs = @ \cup Q.adding, !.adding = {}, !.cols = @ + 1]
  /\ pc' = "idle" /\ ev' = "add"
  /\ UNCHANGED <<col, obj>>

Pop ==
  /\ pc = "idle" /\ top # -1
  /\ Q' = [Q EXCEPT !.pairs = @ \ {Pair(top)}]
  /\ pc' = "loop" /\ ev' = "pop"
  /\ UNCHANGED <<col, obj, top>>
Retire ==
  /\ Support /\ pc = "idle"
  /\ \E i \in 0..(Q.cols - 1) \ Q.retired :
       /\ Q' = [Q EXCEPT !.retired = @ \cup {i}, !.blank = @ /\ \A p \in Q.pairs : i # p[1] /\ i # p[2]]
       /\ pc' = IF top # -1 /\ i \in {top, col[top][1]} THEN "loop" ELSE "idle"
  /\ ev' = "retire"
  /\ UNCHANGED <<col, obj, top>>

RECURSIVE Skip(_)
Skip(rows) == IF rows = <<>> \/ ~(Support /\ rows[1] \in Q.retired) THEN rows ELSE Skip(Tail(rows))
\* one round of the loop in pop
Settle(cs) ==
  /\ col' = cs
  /\ top' \in ChooseTop(cs)
  /\ pc' = IF Support /\ top' # -1 /\ Retired(top', cs) THEN "loop" ELSE "idle"
Round ==
  /\ pc = "loop"
  /\ LET rows == Skip(Tail(col[top])) IN
     IF (Support /\ top \in Q.retired) \/ rows = <<>>
     THEN Settle(Without(col, top)) /\ obj' = Without(obj, top) /\ ev' = "destroy"
     ELSE Settle([col EXCEPT ![top] = rows]) /\ obj' = [obj EXCEPT ![top] = <<top, rows[1]>>] /\ ev' = "compute"
  /\ UNCHANGED <<Q>>

Next == AddEmpty \/ BeginAdd \/ NewObject \/ ComputeFirst \/ Undo \/ FailAdd \/ EndAdd \/ Pop \/ Retire \/ Round
Spec == Init /\ [][Next]_vars /\ WF_vars(Round)

\* between calls
Idle == pc = "idle"
InQueue == IF pc \in {"new", "compute", "add"} THEN DOMAIN col \ {Q.cols} ELSE DOMAIN col
Queued == UNION {{<<c, col[c][k]>> : k \in DOMAIN col[c]} : c \in InQueue}
Glue ==
  /\ Queued \subseteq Q.pairs \cup (IF pc = "loop" /\ top # -1 THEN {Pair(top)} ELSE {})
  /\ A!Active \subseteq Queued
  /\ Idle => {p \in Queued : p[1] \notin Q.retired /\ p[2] \notin Q.retired} = A!Active
TopIsMax == Idle => IF top = -1 THEN A!Active = {} ELSE A!IsMaxPair(Pair(top)) /\ obj[top] = Pair(top)
\* what is compared is what was computed, for every column in the queue
DataCurrent == \A c \in InQueue : col[c] # <<>> /\ obj[c] = Pair(c)
NoStrayData == DOMAIN obj \subseteq DOMAIN col
CountOk == Idle =>
  LET n == Cardinality(Queued) IN
  /\ Cardinality(A!Active) <= n /\ n <= Cardinality(Q.pairs)
  /\ Q.blank => n = Cardinality(Q.pairs)
LoopEnds == []<>(pc # "loop")

Refines == [][
  CASE ev' = "skip" -> A!SkipColumns(1)
    [] ev' = "begin" -> \E s \in {col'[Q.cols]} : A!BeginAdd(s, [k \in DOMAIN s |-> Q'.key[<<Q.cols, s[k]>>]])
    [] ev' = "newdata" -> A!NewData(Q.cols)
    [] ev' = "compute" -> \E o \in DOMAIN obj : A!Compute(o, obj'[o])
    [] ev' = "destroy" -> \E o \in DOMAIN obj : A!DestroyData(o, obj[o])
    [] ev' = "fail" -> A!FailAdd
    [] ev' = "add" -> A!EndAdd
    [] ev' = "pop" -> A!Pop(Pair(top))
    [] ev' = "retire" -> \E i \in Q'.retired : A!Retire(i)
    [] OTHER -> FALSE]_vars
=============================================================================
