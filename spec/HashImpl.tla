------------------------------- MODULE HashImpl -------------------------------
(* mathic/HashTable.h: an array of chains of nodes, the low bits of the hash  *)
(* choose the chain. A new node goes to the end of its chain (AtEnd) or to    *)
(* the front; when there are more nodes than a share of the array's size,     *)
(* every node is put into a new array four times as large, chain by chain.    *)
(* Checked by TLC: every call is a step of HashTable, and between calls every *)
(* node is in the chain of its hash, once, and the count is right.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Keys, Vals, Handles, Hashes, AtEnd, Share, MaxBits
VARIABLES t, bits, count, limit, mod, fn, ev
vars == <<t, bits, count, limit, mod, fn, ev>>
\* t: 0..2^bits-1 -> chain, a sequence of nodes [h, k, v]

RangeOf(s) == {s[i] : i \in DOMAIN s}
Nodes == UNION {RangeOf(t[b]) : b \in DOMAIN t}
A == INSTANCE HashTable WITH
  tab <- [c \in {n.k % mod : n \in Nodes} |-> CHOOSE n \in Nodes : n.k % mod = c],
  KeySet <- Keys, ValSet <- Vals, HandleSet <- Handles

\* consistent with equality: a function of the class
Hash(k) ==
  LET c == k % mod IN
  CASE fn = "id" -> c [] fn = "zero" -> 0 [] fn = "even" -> 2 * c [] fn = "high" -> 4 * c + (c % 2) [] OTHER -> 7 - c
Bin(k, b) == Hash(k) % (2 ^ b)
Fresh == CHOOSE h \in Handles : \A n \in Nodes : n.h # h
Find(s, k) == {i \in DOMAIN s : s[i].k % mod = k % mod}
Put(s, n) == IF AtEnd THEN Append(s, n) ELSE <<n>> \o s

\* nodes in the order in which grow takes them
RECURSIVE InOrder(_, _)
InOrder(f, b) == IF b \notin DOMAIN f THEN <<>> ELSE f[b] \o InOrder(f, b + 1)
RECURSIVE PutAll(_, _, _)
PutAll(f, s, nb) ==
  IF s = <<>> THEN f ELSE PutAll([f EXCEPT ![Bin(s[1].k, nb)] = Put(@, s[1])], Tail(s), nb)
Bigger(f, nb) == PutAll([b \in 0..(2 ^ nb - 1) |-> <<>>], InOrder(f, 0), nb)

Init ==
  /\ bits = 0 /\ t = [b \in {0} |-> <<>>] /\ count = 0 /\ limit = 1 \div Share
  /\ mod \in {2, 100} /\ fn \in Hashes /\ ev = [e |-> "new"]

Insert(k, v) ==
  LET b == Bin(k, bits)
      at == Find(t[b], k)
  IN IF at # {} THEN
       LET n == t[b][CHOOSE i \in at : \A j \in at : i <= j] IN
       ev' = [e |-> "ins", k |-> k, v |-> v, r |-> FALSE, n |-> n] /\ UNCHANGED <<t, bits, count, limit>>
     ELSE
       LET n == [h |-> Fresh, k |-> k, v |-> v]
           u == [t EXCEPT ![b] = Put(@, n)]
           big == count + 1 > limit
           nb == bits + 2
       IN /\ big => nb <= MaxBits
          /\ ev' = [e |-> "ins", k |-> k, v |-> v, r |-> TRUE, n |-> n]
          /\ count' = count + 1
          /\ IF big THEN t' = Bigger(u, nb) /\ bits' = nb /\ limit' = (2 ^ nb) \div Share
                    ELSE t' = u /\ UNCHANGED <<bits, limit>>
Lookup(k) ==
  LET b == Bin(k, bits)
      at == Find(t[b], k)
  IN /\ ev' = [e |-> "find", k |-> k,
               n |-> IF at = {} THEN [h |-> 0, k |-> 0, v |-> 0] ELSE t[b][CHOOSE i \in at : \A j \in at : i <= j]]
     /\ UNCHANGED <<t, bits, count, limit>>
Remove(n) ==
  LET b == Bin(n.k, bits) IN
  /\ \E i \in DOMAIN t[b] : t[b][i] = n
  /\ t' = [t EXCEPT ![b] = SelectSeq(@, LAMBDA m : m # n)]
  /\ count' = count - 1 /\ ev' = [e |-> "rem", n |-> n] /\ UNCHANGED <<bits, limit>>
SetValue(n, v) ==
  /\ t' = [b \in DOMAIN t |-> [i \in DOMAIN t[b] |-> IF t[b][i] = n THEN [n EXCEPT !.v = v] ELSE t[b][i]]]
  /\ ev' = [e |-> "set", n |-> n, v |-> v] /\ UNCHANGED <<bits, count, limit>>
HardReset ==
  /\ t' = [b \in DOMAIN t |-> <<>>] /\ count' = 0 /\ ev' = [e |-> "hard"] /\ UNCHANGED <<bits, limit>>

Next ==
  /\ UNCHANGED <<mod, fn>>
  /\ \/ \E k \in Keys : Lookup(k) \/ \E v \in Vals : Insert(k, v)
     \/ \E n \in Nodes : Remove(n) \/ \E v \in Vals : SetValue(n, v)
     \/ HardReset
Spec == Init /\ [][Next]_vars
\* ev only says what the last step was
View == <<t, bits, count, limit, mod, fn>>

InItsChain == \A b \in DOMAIN t : \A n \in RangeOf(t[b]) : Bin(n.k, bits) = b
NoDoubles ==
  /\ \A b \in DOMAIN t : \A i, j \in DOMAIN t[b] : i # j => t[b][i].h # t[b][j].h /\ t[b][i].k % mod # t[b][j].k % mod
  /\ \A b, d \in DOMAIN t : b # d => \A m \in RangeOf(t[b]), n \in RangeOf(t[d]) : m.h # n.h
CountRight == count = Cardinality(Nodes)
\* every node can be removed through its handle, and found
Removable == \A n \in Nodes : ENABLED Remove(n)

Refines == [][
  CASE ev'.e = "ins" -> A!Insert(ev'.k, ev'.v, ev'.r, ev'.n.h, ev'.n.k, ev'.n.v)
    [] ev'.e = "find" -> A!Lookup(ev'.k, ev'.n.h, ev'.n.k, ev'.n.v)
    [] ev'.e = "rem" -> A!Remove(ev'.n.h)
    [] ev'.e = "set" -> A!SetValue(ev'.n.h, ev'.v)
    [] ev'.e = "hard" -> A!HardReset
    [] OTHER -> FALSE]_vars
==============================================================================
