------------------------------ MODULE MergingPQ ------------------------------
(* A priority queue without handles: a set of entries, each with a value and *)
(* the set of pushed entries it stands for. One step is one whole call,      *)
(* during which any number of equal entries may have been merged. PQ refines *)
(* this, and so do the models of the implementations (HeapImpl, TourImpl,    *)
(* GeoImpl).                                                                 *)
EXTENDS Integers, FiniteSets, Sequences

VARIABLES bag, next
CONSTANT Dedup
mvars == <<bag, next>>

Ids(S) == UNION {e.ids : e \in S}
Disjoint(S) == \A a, b \in S : a # b => a.ids \cap b.ids = {}

\* B is A after some merging of equal entries
MergesTo(A, B) ==
  IF ~Dedup THEN A = B
  ELSE /\ Ids(A) = Ids(B) /\ Disjoint(B)
       /\ \A a \in A : \E b \in B : a.ids \subseteq b.ids /\ a.v = b.v
       /\ \A b \in B : b.ids # {}

Entry(v, i) == [v |-> v, ids |-> {i}]
Max(e, S) == \A x \in S : x.v <= e.v

Push(v) == MergesTo(bag \cup {Entry(v, next)}, bag') /\ next' = next + 1
\* e comes out
Pop(e) == /\ Max(e, bag) /\ e.ids # {} /\ e.ids \cap Ids(bag') = {}
          /\ MergesTo(bag, bag' \cup {e})
          /\ UNCHANGED next
Replace(e, v) ==
  /\ Max(e, bag) /\ v <= e.v /\ e.ids # {} /\ e.ids \cap Ids(bag') = {}
  /\ MergesTo(bag \cup {Entry(v, next)}, bag' \cup {e})
  /\ next' = next + 1
Look == MergesTo(bag, bag') /\ UNCHANGED next
Clear == bag' = {} /\ UNCHANGED next
=============================================================================
