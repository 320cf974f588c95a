---------------------------- MODULE BitTriangle ----------------------------
(* One independent bit for every pair of distinct indexes, addressed by      *)
(* (column, row) with column > row or, unordered, by the two indexes.        *)
EXTENDS Integers, FiniteSets, Sequences, TLC
VARIABLES cols, ones   \* number of columns; the pairs <<column, row>> whose bit is set
bvars == <<cols, ones>>

Pair(x, y) == IF x > y THEN <<x, y>> ELSE <<y, x>>
Valid(x, y) == x < cols /\ y < cols /\ x # y

New == cols' = 0 /\ ones' = {}
AddColumn == cols' = cols + 1 /\ UNCHANGED ones
Write(p, v) == ones' = (IF v THEN ones \cup {p} ELSE ones \ {p}) /\ UNCHANGED cols
SetBit(c, r, v) == Valid(c, r) /\ c > r /\ Write(<<c, r>>, v)
SetBitUnordered(x, y, v) == Valid(x, y) /\ Write(Pair(x, y), v)
Bit(c, r, v) == Valid(c, r) /\ c > r /\ v = (<<c, r>> \in ones) /\ UNCHANGED bvars
BitUnordered(x, y, v) == Valid(x, y) /\ v = (Pair(x, y) \in ones) /\ UNCHANGED bvars
Count(n, empty) == n = cols /\ empty = (cols = 0) /\ UNCHANGED bvars
\* every bit was read, through the ordered (pairs) and the unordered access (both ways round)
ReadAll(pairs, low, high) ==
  /\ Len(pairs) = Cardinality(ones) /\ Len(low) = Len(pairs) /\ Len(high) = Len(pairs)
  /\ {pairs[k] : k \in DOMAIN pairs} = ones
  /\ {low[k] : k \in DOMAIN low} = ones
  /\ {high[k] : k \in DOMAIN high} = ones
  /\ UNCHANGED bvars

-----------------------------------------------------------------------------
CONSTANT MaxCols
BInit == cols = 0 /\ ones = {}
BNext ==
  \/ cols < MaxCols /\ AddColumn
  \/ \E x, y \in 0..(MaxCols - 1), v \in BOOLEAN : SetBit(x, y, v) \/ SetBitUnordered(x, y, v)
BSpec == BInit /\ [][BNext]_bvars
InTriangle == \A p \in ones : p[2] < p[1] /\ p[1] < cols
\* a step changes at most one bit, and a new column starts clear
OneBit == [][Cardinality((ones \ ones') \cup (ones' \ ones)) <= 1]_bvars
NewColumnClear == [][cols' > cols => \A p \in ones' : p[1] # cols]_bvars
=============================================================================
