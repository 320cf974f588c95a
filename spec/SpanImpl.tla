------------------------------ MODULE SpanImpl ------------------------------
(* src/pqsim/Model.h and Item.h over any priority queue: the queue holds items *)
(* which are what remains of a run (OnSpans) or single values; popping moves   *)
(* the items that show the largest value to their next value, one by one.      *)
(* A queue that merges equal items (Dedup) keeps one of them and leaves what   *)
(* follows in the other one aside (pending), to be pushed later. When merging  *)
(* happens is up to the queue: here, at any time during a call. Checked by     *)
(* TLC: every call is a step of SpanQueue.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Values, MaxRun, MaxItems, OnSpans, Dedup, DecreaseTop
VARIABLES items,    \* set of <<identity, remaining run>>
          pending,  \* set of the same: left aside
          next,     \* the next identity
          pc, topv, \* where in which call
          cur       \* the item in hand while popping
ivars == <<items, pending, next, pc, topv, cur>>
Range(run) == {run[i] : i \in DOMAIN run}
AllOf(S) == UNION {Range(x[2]) : x \in S}
Left == AllOf(items) \cup AllOf(pending) \cup (IF pc \in {"push", "decrease"} THEN Range(cur) ELSE {})
live == IF pc = "idle" THEN Left ELSE Left \ {topv}
A == INSTANCE SpanQueue

Head1(x) == x[2][1]
Heads == {Head1(x) : x \in items}
Fresh == CHOOSE k \in 1..(MaxItems + 1) : \A x \in items \cup pending : x[1] # k
IInit == items = {} /\ pending = {} /\ next = 1 /\ pc = "idle" /\ topv = 0 /\ cur = <<>>

\* a merge of x and y: x stays, what follows in y is left aside
Merge ==
  /\ Dedup
  /\ \E x, y \in items :
       /\ x # y /\ Head1(x) = Head1(y)
       /\ items' = items \ {y}
       /\ pending' = IF Len(y[2]) > 1 THEN pending \cup {<<y[1], Tail(y[2])>>} ELSE pending
  /\ UNCHANGED <<next, pc, topv, cur>>

PushRun(r) ==
  /\ pc = "idle" /\ OnSpans /\ Cardinality(items) + Cardinality(pending) < MaxItems
  /\ items' = items \cup {<<Fresh, r>>} /\ UNCHANGED <<pending, next, pc, topv, cur>>
PushElements(r) ==
  /\ pc = "idle" /\ ~OnSpans /\ Cardinality(items) + Len(r) <= MaxItems
  /\ LET free == {k \in 1..(MaxItems + 1) : \A x \in items : x[1] # k}
         ids == CHOOSE f \in [1..Len(r) -> free] : \A i, j \in 1..Len(r) : i < j => f[i] < f[j] IN
     items' = items \cup {<<ids[i], <<r[i]>>>> : i \in 1..Len(r)}
  /\ UNCHANGED <<pending, next, pc, topv, cur>>

IsTop(x) == \A y \in items : Head1(y) <= Head1(x)
\* the first round of the loop in pop decides the value that is returned
Start ==
  /\ pc = "idle" /\ items # {}
  /\ \E x \in items : IsTop(x) /\ topv' = Head1(x)
  /\ pc' = "take" /\ UNCHANGED <<items, pending, next, cur>>
Take ==
  /\ pc = "take"
  /\ \E x \in items :
       /\ IsTop(x)
       /\ LET rest == IF OnSpans THEN Tail(x[2]) ELSE <<>> IN
          IF rest = <<>> THEN items' = items \ {x} /\ cur' = <<>> /\ pc' = "flush"
          ELSE IF DecreaseTop THEN items' = (items \ {x}) \cup {<<x[1], rest>>} /\ cur' = <<>> /\ pc' = "flush"
          ELSE items' = items \ {x} /\ cur' = rest /\ pc' = "push"
  /\ UNCHANGED <<pending, next, topv>>
PutBack ==
  /\ pc = "push" /\ items' = items \cup {<<Fresh, cur>>} /\ cur' = <<>> /\ pc' = "flush"
  /\ UNCHANGED <<pending, next, topv>>
Flush ==
  /\ pc = "flush" /\ pending # {}
  /\ \E y \in pending : pending' = pending \ {y} /\ items' = items \cup {y}
  /\ UNCHANGED <<next, pc, topv, cur>>
Again ==
  /\ pc = "flush" /\ pending = {} /\ topv \in Heads /\ (\E x \in items : IsTop(x) /\ Head1(x) = topv)
  /\ pc' = "take" /\ UNCHANGED <<items, pending, next, topv, cur>>
Finish ==
  /\ pc = "flush" /\ pending = {} /\ ~(\E x \in items : IsTop(x) /\ Head1(x) = topv)
  /\ pc' = "idle" /\ topv' = 0 /\ UNCHANGED <<items, pending, next, cur>>
INext ==
  \/ Merge \/ Start \/ Take \/ PutBack \/ Flush \/ Again \/ Finish
  \/ \E r \in A!Runs : PushRun(r) \/ PushElements(r)
ISpec == IInit /\ [][INext]_ivars
Refines == A!Spec
\* only the first round of a pop and a push are seen from outside
Quiet == [][pc # "idle" => live' = live]_ivars
\* what is left aside never hides the largest value: between calls the queue itself shows it
Shown == (pc = "idle" /\ Left # {}) => \E x \in items : \A v \in Left : v <= Head1(x)
\* queues that do not merge leave nothing aside
NothingAside == ~Dedup => pending = {}
Runny == \A x \in items \cup pending : A!Descending(x[2])
=============================================================================
