------------------------------ MODULE HeapImpl ------------------------------
(* mathic/Heap.h: a binary heap in an array, with the bottom-up pop and the  *)
(* merging of equal entries while an entry moves up. Checked by TLC: every   *)
(* call is a step of MergingPQ and the array is a heap between calls.        *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Vals, MaxPush, Dedup
VARIABLES tree, next, ev
vars == <<tree, next, ev>>

A == INSTANCE MergingPQ WITH bag <- {tree[k] : k \in DOMAIN tree}

Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]
Merged(a, b) == [v |-> a.v, ids |-> a.ids \cup b.ids]
Odd(n) == (n % 2) = 1

\* moveHoleDown: the tree with the larger children moved up, and where the hole ended
RECURSIVE Down(_, _)
Down(t, hole) ==
  LET n == Len(t)
      firstWithout2 == (n + 1) \div 2
      l == 2 * hole IN
  IF hole < firstWithout2 THEN
    LET c == IF t[l].v < t[l + 1].v THEN l + 1 ELSE l IN Down([t EXCEPT ![hole] = t[c]], c)
  ELSE IF hole = firstWithout2 /\ ~Odd(n) THEN <<[t EXCEPT ![hole] = t[l]], l>>
  ELSE <<t, hole>>

\* the elements that had moved down along the path from orig to pos move back
RECURSIVE Back(_, _, _, _)
Back(t, tmp, p, pos) == IF p = pos THEN t ELSE Back([t EXCEPT ![p] = tmp], t[p], p \div 2, pos)

\* moveValueUp
RECURSIVE Up(_, _, _, _)
Up(t, pos, orig, x) ==
  IF pos = 1 THEN [t EXCEPT ![1] = x]
  ELSE LET up == pos \div 2 IN
    IF t[up].v < x.v THEN Up([t EXCEPT ![pos] = t[up]], up, orig, x)
    ELSE IF Dedup /\ t[up].v = x.v THEN
      LET t1 == [t EXCEPT ![up] = Merged(t[up], x)]
          t2 == IF pos # orig THEN Back(t1, t1[orig], orig \div 2, pos) ELSE t1
          y == Last(t2)
          t3 == Front(t2) IN
      IF orig = Len(t3) + 1 THEN t3 ELSE Up(t3, orig, orig, y)
    ELSE [t EXCEPT ![pos] = x]

Init == tree = <<>> /\ next = 1 /\ ev = [e |-> "new"]
Push(v) ==
  LET x == [v |-> v, ids |-> {next}]
      t == Append(tree, x) IN
  /\ tree' = Up(t, Len(t), Len(t), x)
  /\ next' = next + 1 /\ ev' = [e |-> "push", v |-> v]
Pop ==
  /\ tree # <<>>
  /\ LET top == tree[1]
         x == Last(tree)
         t == Front(tree) IN
     /\ tree' = IF t = <<>> THEN t ELSE LET d == Down(t, 1) IN Up(d[1], d[2], d[2], x)
     /\ ev' = [e |-> "pop", x |-> top]
  /\ UNCHANGED next
Replace(v) ==
  /\ tree # <<>> /\ v <= tree[1].v
  /\ LET d == Down(tree, 1) IN tree' = Up(d[1], d[2], d[2], [v |-> v, ids |-> {next}])
  /\ next' = next + 1 /\ ev' = [e |-> "rep", x |-> tree[1], v |-> v]
Clear == tree' = <<>> /\ UNCHANGED next /\ ev' = [e |-> "clear"]

Next ==
  \/ next <= MaxPush /\ \E v \in Vals : Push(v) \/ Replace(v)
  \/ Pop \/ Clear
Spec == Init /\ [][Next]_vars
\* ev only says what the last step was
View == <<tree, next>>

IsHeap == \A k \in 2..Len(tree) : tree[k].v <= tree[k \div 2].v
Refines == [][
  CASE ev'.e = "push" -> A!Push(ev'.v)
    [] ev'.e = "pop" -> A!Pop(ev'.x)
    [] ev'.e = "rep" -> A!Replace(ev'.x, ev'.v)
    [] ev'.e = "clear" -> A!Clear
    [] OTHER -> FALSE]_vars
\* entries are never lost within the array: no two places hold the same entry
NoDoubles == \A j, k \in DOMAIN tree : j # k => tree[j].ids \cap tree[k].ids = {}
=============================================================================
