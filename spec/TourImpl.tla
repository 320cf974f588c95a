------------------------------ MODULE TourImpl ------------------------------
(* mathic/TourTree.h: a tournament tree. players[p] is an entry and its      *)
(* leaf; tree[node] is the player that won below node. Checked by TLC: every *)
(* call is a step of MergingPQ (without merging), the tree is a tournament   *)
(* between calls, and a push whose comparison fails leaves no trace.         *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Vals, MaxPush
VARIABLES tree, players, next, ev
vars == <<tree, players, next, ev>>

A == INSTANCE MergingPQ WITH Dedup <- FALSE, bag <- {players[k].x : k \in DOMAIN players}

Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]
Odd(n) == (n % 2) = 1
Sibling(n) == IF Odd(n) THEN n - 1 ELSE n + 1
Val(ps, p) == ps[p].x.v

Init == tree = <<>> /\ players = <<>> /\ next = 1 /\ ev = [e |-> "new"]

\* the highest node that value v wins on its way up from leaf, looking at tree t
RECURSIVE Wins(_, _, _, _)
Wins(t, ps, win, v) ==
  IF win = 1 \/ ~(Val(ps, t[win \div 2]) < v) THEN win ELSE Wins(t, ps, win \div 2, v)
RECURSIVE Fill(_, _, _, _)
Fill(t, pos, win, p) == IF pos = win THEN t ELSE Fill([t EXCEPT ![pos \div 2] = p], pos \div 2, win, p)

Push(v) ==
  LET x == [v |-> v, ids |-> {next}] IN
  /\ IF tree = <<>> THEN tree' = <<1>> /\ players' = <<[x |-> x, leaf |-> 1]>>
     ELSE LET n == Len(tree)
              old == (n + 1) \div 2          \* this leaf gets two children
              p == Len(players) + 1
              win == Wins(tree, players, 2 * old + 1, v)
              moved == tree[old]
              t == tree \o <<moved, p>>
          IN /\ players' = Append([players EXCEPT ![moved].leaf = n + 1], [x |-> x, leaf |-> n + 2])
             /\ tree' = Fill(t, n + 2, win, p)
  /\ next' = next + 1 /\ ev' = [e |-> "push", v |-> v]

\* a comparison made by push throws: nothing has been changed yet
PushFails == UNCHANGED <<tree, players, next>> /\ ev' = [e |-> "fail"]

\* replays the matches from a leaf up to the root: as in pop and decreaseTop
RECURSIVE Replay(_, _, _, _)
Replay(t, ps, pos, p) ==
  IF pos = 1 THEN t
  ELSE LET opp == t[Sibling(pos)]
           w == IF Val(ps, p) < Val(ps, opp) THEN opp ELSE p IN
       Replay([t EXCEPT ![pos \div 2] = w], ps, pos \div 2, w)

\* up from pos, the wins of player r become wins of player l
RECURSIVE Rename(_, _, _, _)
Rename(t, pos, r, l) ==
  IF t[pos] # r THEN t
  ELSE LET u == [t EXCEPT ![pos] = l] IN IF pos = 1 THEN u ELSE Rename(u, pos \div 2, r, l)

Pop ==
  /\ tree # <<>>
  /\ ev' = [e |-> "pop", x |-> players[tree[1]].x]
  /\ UNCHANGED next
  /\ IF Len(tree) = 1 THEN tree' = <<>> /\ players' = <<>>
     ELSE LET n == Len(tree)
              parent == n \div 2
              l == tree[n - 1]
              r == tree[n]
              sw == r = tree[parent]
              ps1 == IF sw THEN [players EXCEPT ![l].x = players[r].x, ![r].x = players[l].x] ELSE players
              t1 == IF sw THEN Rename(tree, parent, r, l) ELSE tree
              w == t1[1]
              ps2 == [ps1 EXCEPT ![w].x = ps1[r].x]
              ps3 == [Front(ps2) EXCEPT ![l].leaf = parent]
              t2 == Front(Front(t1))
          IN /\ r = Len(players)             \* the last leaf is the last player's
             /\ players' = ps3
             /\ tree' = Replay(t2, ps3, ps3[w].leaf, w)

Replace(v) ==
  /\ tree # <<>>
  /\ LET w == tree[1]
         ps == [players EXCEPT ![w].x = [v |-> v, ids |-> {next}]] IN
     /\ v <= Val(players, w)
     /\ players' = ps
     /\ tree' = Replay(tree, ps, ps[w].leaf, w)
     /\ ev' = [e |-> "rep", x |-> players[w].x, v |-> v]
  /\ next' = next + 1

Clear == tree' = <<>> /\ players' = <<>> /\ UNCHANGED next /\ ev' = [e |-> "clear"]

Next ==
  \/ next <= MaxPush /\ \E v \in Vals : Push(v) \/ Replace(v)
  \/ Pop \/ PushFails \/ Clear
Spec == Init /\ [][Next]_vars
\* ev only says what the last step was
View == <<tree, players, next>>

Shape ==
  /\ Len(tree) = IF players = <<>> THEN 0 ELSE 2 * Len(players) - 1
  /\ \A n \in DOMAIN tree : tree[n] \in DOMAIN players
  /\ \A n \in DOMAIN tree :
       IF 2 * n > Len(tree) THEN players[tree[n]].leaf = n
       ELSE /\ tree[n] \in {tree[2 * n], tree[2 * n + 1]} /\ tree[2 * n] # tree[2 * n + 1]
            /\ \A c \in {2 * n, 2 * n + 1} : Val(players, tree[c]) <= Val(players, tree[n])
LastLeafIsLastPlayer == players # <<>> => tree[Len(tree)] = Len(players)
\* pop is always possible while there is an entry
PopEnabled == tree # <<>> => ENABLED Pop
Refines == [][
  CASE ev'.e = "push" -> A!Push(ev'.v)
    [] ev'.e = "pop" -> A!Pop(ev'.x)
    [] ev'.e = "rep" -> A!Replace(ev'.x, ev'.v)
    [] ev'.e = "clear" -> A!Clear
    [] ev'.e = "fail" -> UNCHANGED <<tree, players, next>>
    [] OTHER -> FALSE]_vars
=============================================================================
