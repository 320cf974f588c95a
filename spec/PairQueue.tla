----------------------------- MODULE PairQueue -----------------------------
(* What a user of the pair queue relies on: a set of pairs (column, row),    *)
(* added one column at a time, ordered by a key per pair; indexes can be     *)
(* retired; per-pair data objects are built, recomputed, compared and        *)
(* destroyed in a disciplined way.                                           *)
EXTENDS Integers, FiniteSets, Sequences, TLC

VARIABLES
  cols,     \* number of columns added
  pairs,    \* queued pairs (added, not popped), those with a retired index included
  key,      \* pair -> its place in the configured order
  retired,  \* retired indexes
  adding,   \* the set of pairs of the column addition in progress
  data,     \* data object -> pair it holds, or <<>> before anything is computed
  blank     \* FALSE: nothing was ever retired with pairs queued (pairCount must then be exact)

pvars == <<cols, pairs, key, retired, adding, data, blank>>

Active == {p \in pairs : p[1] \notin retired /\ p[2] \notin retired}
IsMaxPair(p) == p \in Active /\ \A q \in Active : key[q] <= key[p]
EmptyMap == [x \in {} |-> 0]

New == cols' = 0 /\ pairs' = {} /\ key' = EmptyMap /\ retired' = {} /\ adding' = {} /\ data' = EmptyMap /\ blank' = TRUE

SkipColumns(n) == cols' = cols + n /\ UNCHANGED <<pairs, key, retired, adding, data, blank>>

\* the call starts: rows and keys of the new column
BeginAdd(rows, keys) ==
  LET ps == {<<cols, rows[k]>> : k \in DOMAIN rows} IN
  /\ adding = {}
  /\ \A p \in ps : p[2] < cols /\ p[2] \notin retired
  /\ adding' = ps
  /\ key' = [p \in ps |-> keys[CHOOSE k \in DOMAIN rows : rows[k] = p[2]]] @@ key
  /\ UNCHANGED <<cols, pairs, retired, data, blank>>

EndAdd == pairs' = pairs \cup adding /\ adding' = {} /\ cols' = cols + 1 /\ UNCHANGED <<key, retired, data, blank>>

\* the call failed: nothing is left of it
FailAdd ==
  /\ adding # {}
  /\ \A o \in DOMAIN data : data[o] # <<>> /\ data[o][1] # cols
  /\ adding' = {}
  /\ UNCHANGED <<cols, pairs, key, retired, data, blank>>

Top(p) == IsMaxPair(p) /\ UNCHANGED pvars
TopData(o, p) == IsMaxPair(p) /\ o \in DOMAIN data /\ data[o] = p /\ UNCHANGED pvars
\* p is the pair that the queue showed as its top just before
Pop(p) == IsMaxPair(p) /\ pairs' = pairs \ {p} /\ UNCHANGED <<cols, key, retired, adding, data, blank>>

Retire(i) ==
  /\ i < cols /\ i \notin retired
  /\ retired' = retired \cup {i}
  /\ blank' = (blank /\ \A p \in pairs : i # p[1] /\ i # p[2])
  /\ UNCHANGED <<cols, pairs, key, adding, data>>

Empty(r) == r = (Active = {}) /\ UNCHANGED pvars
Retired(i, r) == r = (i \in retired) /\ UNCHANGED pvars
Columns(n) == n = cols /\ UNCHANGED pvars
PairCount(n) ==
  /\ Cardinality(Active) <= n /\ n <= Cardinality(pairs)
  /\ blank => n = Cardinality(pairs)
  /\ UNCHANGED pvars

\* data objects
NewData(o) == o \notin DOMAIN data /\ data' = data @@ (o :> <<>>) /\ UNCHANGED <<cols, pairs, key, retired, adding, blank>>
Compute(o, p) ==
  /\ o \in DOMAIN data
  /\ data[o] # <<>> => data[o][1] = p[1]
  /\ p \in adding \/ (p \in pairs /\ p[1] \notin retired /\ p[2] \notin retired)
  /\ data' = [data EXCEPT ![o] = p]
  /\ UNCHANGED <<cols, pairs, key, retired, adding, blank>>
Compare(o1, p1, o2, p2) ==
  /\ {o1, o2} \subseteq DOMAIN data
  /\ data[o1] = p1 /\ data[o2] = p2
  /\ UNCHANGED pvars
\* p is the pair that the queue says the object holds; <<>> when it does not say
DestroyData(o, p) ==
  /\ o \in DOMAIN data
  /\ p # <<>> => data[o] = p
  /\ data' = [x \in DOMAIN data \ {o} |-> data[x]]
  /\ UNCHANGED <<cols, pairs, key, retired, adding, blank>>
\* the queue is gone
End == data = EmptyMap /\ UNCHANGED pvars

-----------------------------------------------------------------------------
(* Consequences, checked by TLC for the closed system below                 *)
CONSTANTS MaxCols, Keys
VARIABLES popped   \* history: pairs popped, as a sequence

RECURSIVE Rows(_)
Rows(S) == IF S = {} THEN <<>> ELSE LET r == CHOOSE x \in S : TRUE IN <<r>> \o Rows(S \ {r})
PInit == cols = 0 /\ pairs = {} /\ key = EmptyMap /\ retired = {} /\ adding = {} /\ data = EmptyMap /\ blank = TRUE /\ popped = <<>>
PNext ==
  \/ /\ cols < MaxCols /\ adding = {} /\ UNCHANGED popped
     /\ \E R \in SUBSET ((0..(cols - 1)) \ retired) : \E f \in [R -> Keys] :
          BeginAdd(Rows(R), [k \in 1..Len(Rows(R)) |-> f[Rows(R)[k]]]) /\ (R # {} \/ TRUE)
  \/ adding # {} /\ UNCHANGED popped /\ (EndAdd \/ FailAdd)
  \/ adding = {} /\ cols < MaxCols /\ UNCHANGED popped /\ SkipColumns(1)
  \/ adding = {} /\ \E p \in Active : Pop(p) /\ popped' = Append(popped, p)
  \/ adding = {} /\ UNCHANGED popped /\ \E i \in 0..(cols - 1) : Retire(i)
PSpec == PInit /\ [][PNext]_<<pvars, popped>>

OncePopped == \A j, k \in DOMAIN popped : popped[j] = popped[k] => j = k
PoppedGone == \A k \in DOMAIN popped : popped[k] \notin pairs
OnlyAdded == \A k \in DOMAIN popped : popped[k] \in DOMAIN key
\* nothing retired is ever popped
NeverRetired == [][\A p \in pairs \ pairs' : p[1] \notin retired /\ p[2] \notin retired]_<<pvars, popped>>
=============================================================================
