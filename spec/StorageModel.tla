---------------------------- MODULE StorageModel ----------------------------
(* How the structures of mathic keep their storage: a block for the         *)
(* structure itself, an array that is replaced by a larger one when it is   *)
(* full, and nodes taken one by one and dropped together. TLC checks that   *)
(* this is a behaviour of Storage and that nothing is lost.                 *)
EXTENDS Storage

VARIABLES
  self,    \* [Slots -> block of the structure, 0: no structure]
  array,   \* [Slots -> its array, 0: none]
  nodes,   \* [Slots -> set of nodes]
  todo     \* steps that remain of the operation that runs
mvars == <<svars, self, array, nodes, todo>>

None == [s \in Slots |-> 0]
Init == SInit /\ self = None /\ array = None /\ nodes = [s \in Slots |-> {}] /\ todo = <<>>
Idle == todo = <<>>
Free == Blocks \ Used
Has(s) == self[s] # 0
RECURSIVE Gives(_, _)
Gives(B, f) == IF B = {} THEN <<>> ELSE LET b == CHOOSE x \in B : TRUE IN <<<<"give", b, f>>>> \o Gives(B \ {b}, f)
Do(s, steps) == Idle /\ Call(s) /\ todo' = steps
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

Make(s) == ~Has(s) /\ Free # {} /\ LET b == Min(Free) IN Do(s, <<<<"take", b, "one">>>>) /\ self' = [self EXCEPT ![s] = b] /\ UNCHANGED <<array, nodes>>
Grow(s) == Has(s) /\ Free # {} /\
  LET b == Min(Free)
      old == IF array[s] = 0 THEN <<>> ELSE <<<<"give", array[s], "array">>>> IN
  Do(s, <<<<"take", b, "array">>>> \o old) /\ array' = [array EXCEPT ![s] = b] /\ UNCHANGED <<self, nodes>>
Node(s) == Has(s) /\ Free # {} /\ LET b == Min(Free) IN Do(s, <<<<"take", b, "one">>>>) /\ nodes' = [nodes EXCEPT ![s] = @ \cup {b}] /\ UNCHANGED <<self, array>>
Clear(s) == Has(s) /\ Do(s, Gives(nodes[s], "one")) /\ nodes' = [nodes EXCEPT ![s] = {}] /\ UNCHANGED <<self, array>>
\* the other structure stays, without array and nodes
Move(s, f) ==
  /\ s # f /\ Idle /\ ~Has(s) /\ Has(f) /\ Free # {}
  /\ LET b == Min(Free) IN
     /\ self' = [self EXCEPT ![s] = b]
     /\ array' = [array EXCEPT ![s] = array[f], ![f] = 0]
     /\ nodes' = [nodes EXCEPT ![s] = nodes[f], ![f] = {}]
     /\ Call(s) /\ todo' = <<<<"take", b, "one">>, <<"pass", s, f, self[f]>>>>
Destroy(s) ==
  /\ Has(s)
  /\ Do(s, Gives(nodes[s], "one") \o (IF array[s] = 0 THEN <<>> ELSE <<<<"give", array[s], "array">>>>) \o <<<<"give", self[s], "one">>, <<"gone", s>>>>)
  /\ self' = [self EXCEPT ![s] = 0] /\ array' = [array EXCEPT ![s] = 0] /\ nodes' = [nodes EXCEPT ![s] = {}]
Step ==
  /\ ~Idle /\ todo' = Tail(todo) /\ UNCHANGED <<self, array, nodes>>
  /\ LET t == Head(todo) IN
     CASE t[1] = "take" -> Take(t[2], t[3])
       [] t[1] = "give" -> Give(t[2], t[3])
       [] t[1] = "pass" -> Moved(t[2], t[3], {t[4]})
       [] t[1] = "gone" -> Destroyed(t[2])
Next == Step \/ \E s \in Slots : Make(s) \/ Grow(s) \/ Node(s) \/ Clear(s) \/ Destroy(s) \/ \E f \in Slots : Move(s, f)
Spec == Init /\ [][Next]_mvars
RefinesStorage == SSpec

Owned(s) == ({self[s], array[s]} \ {0}) \cup nodes[s]
\* between operations the blocks in use are those of the structures, each of one
NothingLost == Idle => \A s \in Slots : OwnedBy(s) = Owned(s)
OwnedOnce == \A s, f \in Slots : s # f => Owned(s) \cap Owned(f) = {}
=============================================================================
