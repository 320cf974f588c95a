------------------------------ MODULE ComTree ------------------------------
(* The complete binary tree container: every slot holds a sequence of        *)
(* entries, entry 1 being the root, and the place of an entry decides its    *)
(* parent, children and sibling. The room grows when it has to.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Slots
VARIABLES s, cap   \* per slot: the entries and the room for entries
ctvars == <<s, cap>>

Parent(n) == n \div 2
Left(n) == 2 * n
Right(n) == 2 * n + 1
Sibling(n) == IF (n % 2) = 0 THEN n + 1 ELSE n - 1
LeftSibling(n) == n - (n % 2)

New == s' = [k \in Slots |-> <<>>] /\ cap' = [k \in Slots |-> 0]
Put(k, t, c) == s' = [s EXCEPT ![k] = t] /\ cap' = [cap EXCEPT ![k] = c]

\* c is the room reported after the operation
Create(k, room, c) == c >= room /\ Put(k, <<>>, c)
PushBack(k, v, c) == c >= Len(s[k]) + 1 /\ c >= cap[k] /\ (Len(s[k]) < cap[k] => c = cap[k]) /\ Put(k, Append(s[k], v), c)
PushBackWithCapacity(k, v, c) == Len(s[k]) < cap[k] /\ c = cap[k] /\ Put(k, Append(s[k], v), c)
PopBack(k, c) == s[k] # <<>> /\ c = cap[k] /\ Put(k, SubSeq(s[k], 1, Len(s[k]) - 1), c)
Write(k, n, v, c) == n \in DOMAIN s[k] /\ c = cap[k] /\ Put(k, [s[k] EXCEPT ![n] = v], c)
Clear(k, c) == c = cap[k] /\ Put(k, <<>>, c)
Grow(k, c) == c > cap[k] /\ Put(k, s[k], c)
\* a copy has at least the room asked for; the original is left alone
Copy(k, from, room, c) == k # from /\ c >= room /\ c >= Len(s[from]) /\ Put(k, s[from], c)
Swap(a, b) == a # b /\ s' = [s EXCEPT ![a] = s[b], ![b] = s[a]] /\ cap' = [cap EXCEPT ![a] = cap[b], ![b] = cap[a]]
\* moving leaves an empty tree that can be used again
Move(k, from, c, left) ==
  /\ k # from /\ c = cap[from]
  /\ s' = [s EXCEPT ![k] = s[from], ![from] = <<>>] /\ cap' = [cap EXCEPT ![k] = c, ![from] = left]
\* what is seen
Size(k, n, empty, c) == n = Len(s[k]) /\ empty = (n = 0) /\ c = cap[k] /\ UNCHANGED ctvars
Free(k, n, r) == r = (cap[k] - Len(s[k]) >= n) /\ UNCHANGED ctvars
Contents(k, out, last) == out = s[k] /\ last = Len(s[k]) /\ UNCHANGED ctvars
\* numbers of the nodes that are reached from node n: a number is the position of a node, counted from the root at 1
Navigate(n, j, r) ==
  /\ r = [parent |-> Parent(n), left |-> Left(n), right |-> Right(n), sibling |-> IF n = 1 THEN 0 ELSE Sibling(n),
          lsib |-> IF n = 1 THEN 0 ELSE LeftSibling(n), next |-> n + 1, prev |-> n - 1, ahead |-> n + j,
          isleft |-> (n % 2) = 0, isright |-> (n % 2) = 1, isroot |-> n = 1]
  /\ UNCHANGED ctvars
Order(a, b, r) ==
  /\ r = [lt |-> a < b, le |-> a <= b, gt |-> a > b, ge |-> a >= b, eq |-> a = b, ne |-> a # b]
  /\ UNCHANGED ctvars

-----------------------------------------------------------------------------
CONSTANTS Values, MaxLen, MaxCap
Init == s = [k \in Slots |-> <<>>] /\ cap = [k \in Slots |-> 0]
Next ==
  \E k \in Slots, c \in 0..MaxCap :
    \/ \E r \in 0..1 : Create(k, r, c)
    \/ \E v \in Values : (PushBack(k, v, c) \/ PushBackWithCapacity(k, v, c)) /\ Len(s'[k]) <= MaxLen
    \/ PopBack(k, c) \/ Clear(k, c) \/ Grow(k, c)
    \/ \E n \in DOMAIN s[k], v \in Values : Write(k, n, v, c)
    \/ \E f \in Slots : Copy(k, f, 1, c) \/ Move(k, f, c, 0) \/ Swap(k, f)
Spec == Init /\ [][Next]_ctvars
Fits == \A k \in Slots : Len(s[k]) <= cap[k]
\* the places form one complete binary tree, whatever its size
OneTree == \A k \in Slots : \A n \in 2..Len(s[k]) :
  /\ Parent(n) \in 1..(n - 1) /\ n \in {Left(Parent(n)), Right(Parent(n))}
  /\ Parent(Sibling(n)) = Parent(n) /\ Sibling(Sibling(n)) = n /\ LeftSibling(n) = Left(Parent(n))
\* a step leaves every slot it does not name alone
OneSlot == [][Cardinality({k \in Slots : s[k] # s'[k]}) <= 2]_ctvars
=============================================================================
