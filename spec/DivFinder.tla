----------------------------- MODULE DivFinder -----------------------------
(* What a user of a divisor finder relies on: it stores a bag of monomials, *)
(* represented as a function from element identities to monomials. Every    *)
(* action is a public call with its arguments and its results. The choice   *)
(* of divisor and the order of an enumeration are free.                     *)
EXTENDS Monomials, TLC

VARIABLES
  store,   \* element identity -> monomial, exactly what is stored
  opts     \* [leaf, sorted, list, rem, ord]: the facts about the configuration that are visible to a user

dfvars == <<store, opts>>

Live == DOMAIN store
Divisors(q) == {i \in Live : Divides(store[i], q)}
Multiples(q) == {i \in Live : Divides(q, store[i])}
Equals(q) == {i \in Live : store[i] = q}

\* out enumerates S, in any order, each element once; lim > 0: the consumer stops at the lim-th element
Enumerates(out, S, lim) ==
  /\ Len(out) = IF lim = 0 THEN Cardinality(S) ELSE Min2(lim, Cardinality(S))
  /\ Injective(out)
  /\ Range(out) \subseteq S

SortedSeq(out) == \A k \in 1..(Len(out) - 1) : ~LessBy(opts.ord, store[out[k + 1]], store[out[k]])

Empty == [i \in {} |-> <<>>]
New(o) == store' = Empty /\ opts' = o

Insert(id, m) ==
  /\ id \notin Live
  /\ store' = store @@ (id :> m)
  /\ UNCHANGED opts

\* a tree refuses more equal elements than fit in a leaf, and is unchanged then
InsertRefused(id, m) ==
  /\ ~opts.list
  /\ Cardinality(Equals(m)) >= opts.leaf
  /\ UNCHANGED dfvars

\* where i is in ids; mostly they are consecutive
PlaceOf(i, ids) ==
  LET k == i - ids[1] + 1 IN IF k \in DOMAIN ids /\ ids[k] = i THEN k ELSE CHOOSE j \in DOMAIN ids : ids[j] = i
InsertRange(ids, ms) ==
  /\ Len(ids) = Len(ms)
  /\ Injective(ids)
  /\ Range(ids) \cap Live = {}
  /\ store' = LET more == Range(ids) IN [i \in Live \cup more |-> IF i \in more THEN ms[PlaceOf(i, ids)] ELSE store[i]]
  /\ UNCHANGED opts

\* a refused range insertion has inserted the elements before the refused one; n: the count reported then
InsertRangeRefused(ids, ms, n) ==
  LET k == n - Cardinality(Live) + 1         \* the refused one
      before == {j \in DOMAIN ids : j < k}
      more == {ids[j] : j \in before} IN
  /\ ~opts.list
  /\ Len(ids) = Len(ms) /\ Injective(ids) /\ Range(ids) \cap Live = {}
  /\ k \in DOMAIN ids
  /\ Cardinality(Equals(ms[k])) + Cardinality({j \in before : ms[j] = ms[k]}) >= opts.leaf
  /\ store' = [i \in Live \cup more |-> IF i \in more THEN ms[PlaceOf(i, ids)] ELSE store[i]]
  /\ UNCHANGED opts

FindDivisor(q, r) ==
  /\ IF r = -1 THEN Divisors(q) = {} ELSE r \in Live /\ Divides(store[r], q)
  /\ UNCHANGED dfvars

AllDivisors(q, lim, out) == Enumerates(out, Divisors(q), lim) /\ UNCHANGED dfvars
AllMultiples(q, lim, out) == Enumerates(out, Multiples(q), lim) /\ UNCHANGED dfvars
All(lim, out) == Enumerates(out, Live, lim) /\ UNCHANGED dfvars

Without(S) == [i \in Live \ S |-> store[i]]

RemoveMultiples(q, r, out) ==
  LET S == Multiples(q) IN
  /\ r = (S # {})
  /\ Enumerates(out, S, 0)
  /\ store' = Without(S)
  /\ UNCHANGED opts

RemoveMultiplesQuiet(q, r) ==
  LET S == Multiples(q) IN
  /\ r = (S # {})
  /\ store' = Without(S)
  /\ UNCHANGED opts

\* which of several equal elements goes is free; left is what is seen to remain
RemoveElement(q, r, left) ==
  /\ IF Equals(q) = {} THEN ~r /\ Enumerates(left, Live, 0) /\ UNCHANGED store
     ELSE /\ r
          /\ Injective(left) /\ Range(left) \subseteq Live
          /\ \E i \in Equals(q) : Range(left) = Live \ {i}
          /\ store' = [i \in Range(left) |-> store[i]]
  /\ UNCHANGED opts

RemovalRefused(r, out) == ~opts.rem /\ r /\ out = <<>> /\ UNCHANGED dfvars

Size(n, empty) == n = Cardinality(Live) /\ empty = (Live = {}) /\ UNCHANGED dfvars

Iterate(out) ==
  /\ Enumerates(out, Live, 0)
  /\ opts.sorted => SortedSeq(out)
  /\ UNCHANGED dfvars

MoveToFront(id, first) == id \in Live /\ first = id /\ UNCHANGED dfvars
MoveDivisorToFront(q, id, first) == id \in Divisors(q) /\ MoveToFront(id, first)

\* A user may change what an entry carries besides its monomial; here, its identity. The elements out
\* were changed where they are stored and are known as now from then on, by every later call.
Shown(kind, q) == IF kind = "div" \/ kind = "one" THEN Divisors(q) ELSE IF kind = "mul" THEN Multiples(q) ELSE Live
Relabel(kind, q, lim, out, now) ==
  LET S == Shown(kind, q) IN
  /\ Len(now) = Len(out) /\ Injective(now) /\ Range(now) \cap Live = {}
  /\ Enumerates(out, S, lim)
  /\ store' = Without(Range(out)) @@ [j \in Range(now) |-> store[out[CHOOSE k \in DOMAIN now : now[k] = j]]]
  /\ UNCHANGED opts

Rebuild == UNCHANGED dfvars
Clear == store' = Empty /\ UNCHANGED opts

-----------------------------------------------------------------------------
(* Closed system for model checking and script generation                   *)
CONSTANTS Ids, Vars, Exps
Mons == MonomialsOver(Vars, Exps)

DFInit == store = Empty /\ opts \in [leaf : {1, 2}, sorted : BOOLEAN, list : {TRUE}, rem : {TRUE}, ord : {0}]
DFNext ==
  \/ \E id \in Ids, m \in Mons : Insert(id, m)
  \/ \E q \in Mons : RemoveMultiplesQuiet(q, Multiples(q) # {})
  \/ \E i \in Live : store' = Without({i}) /\ UNCHANGED opts
  \/ \E i \in Live, j \in Ids \ Live : Relabel("all", <<>>, 1, <<i>>, <<j>>)
  \/ Clear
DFSpec == DFInit /\ [][DFNext]_dfvars

\* consequences a user derives from the bag meaning
QueriesAgree ==
  \A q \in Mons :
    /\ (Divisors(q) # {}) <=> \E m \in Mons : Equals(m) # {} /\ Divides(m, q)
    /\ Equals(q) = Divisors(q) \cap Multiples(q)
    /\ \A r \in Mons : Divides(q, r) => Divisors(q) \subseteq Divisors(r) /\ Multiples(r) \subseteq Multiples(q)
=============================================================================
