-------------------------------- MODULE KDImpl --------------------------------
(* mathic/KDTree.h over BinaryKDTree.h and KDEntryArray.h: leaves hold up to  *)
(* C.leaf entries; an interior node splits on a variable and an exponent.     *)
(* Entries carry masks, nodes carry a mask that bounds those below from       *)
(* below (all bits in a new node), both made by a calculator that rebuild     *)
(* replaces: which bits it uses is left open. A remembered divisor and a      *)
(* counter of changes until the next rebuild sit on top. Checked by TLC:      *)
(* every call is a step of DivFinder, in every reachable state every query is *)
(* answered as DivFinder says, and the structure is in order.                 *)
EXTENDS Monomials, TLC

CONSTANTS Exps, MaxIns, MaxLive, Leaves, MaskModes, Sorts, Caches, Autos, Calcs, Queries
VARIABLES C, root, cache, size, till, calc, next, ev
vars == <<C, root, cache, size, till, calc, next, ev>>
View == <<C, root, cache, size, till, calc, next>>

NV == 2
Mons == MonomialsOver(NV, Exps)
Bits == {<<v, t>> : v \in 1..NV, t \in 1..3}
Mask(m, cl) == {b \in cl : m[b[1]] >= b[2]}
Can(a, b) == a \subseteq b                 \* may what has mask a divide what has mask b
EMask == C.masks # "none"
TMask == C.masks = "tree"

E(i, m, cl) == [id |-> i, m |-> m, mask |-> IF EMask THEN Mask(m, cl) ELSE {}]
DividesE(e, q) == (~EMask \/ Can(e.mask, Mask(q, calc))) /\ Divides(e.m, q)
MultipleE(e, q) == (~EMask \/ Can(Mask(q, calc), e.mask)) /\ Divides(q, e.m)
Leaf(es, mask) == [leaf |-> TRUE, es |-> es, mask |-> mask]
Node(v, x, lo, hi, mask) == [leaf |-> FALSE, var |-> v, exp |-> x, lo |-> lo, hi |-> hi, mask |-> mask]
None == [none |-> TRUE]
IsNone(n) == "none" \in DOMAIN n
RECURSIVE BoundOf(_)
BoundOf(es) == IF es = <<>> THEN Bits ELSE es[1].mask \cap BoundOf(Tail(es))

\* a stable place in a sorted leaf
RECURSIVE Upper(_, _)
Upper(es, m) == IF es = <<>> \/ Less(m, es[1].m) THEN 0 ELSE 1 + Upper(Tail(es), m)
PutIn(es, e) ==
  IF ~C.sort THEN Append(es, e)
  ELSE LET k == Upper(es, e.m) IN SubSeq(es, 1, k) \o <<e>> \o SubSeq(es, k + 1, Len(es))
RECURSIVE Sorted(_)
Sorted(es) == IF es = <<>> THEN <<>> ELSE PutIn(Sorted(SubSeq(es, 1, Len(es) - 1)), es[Len(es)])
Arrange(es) == IF C.sort THEN Sorted(es) ELSE es

\* the variable and exponent that split S, trying the variables after var; <<0, 0>> if all are equal
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE SplitAt(_, _, _)
SplitAt(S, var, left) ==
  IF left = 0 THEN <<0, 0>>
  ELSE LET v == (var % NV) + 1
           X == {m[v] : m \in S}
       IN IF MinOf(X) = MaxOf(X) THEN SplitAt(S, v, left - 1)
          ELSE <<v, MinOf(X) + ((MaxOf(X) - MinOf(X)) \div 2)>>
MonsOf(es) == {es[k].m : k \in DOMAIN es}
Low(es, v, x) == SelectSeq(es, LAMBDA e : e.m[v] <= x)
High(es, v, x) == SelectSeq(es, LAMBDA e : e.m[v] > x)
BoundIf(b) == IF TMask THEN b ELSE Bits

\* insertion below node n, whose parent split on var; the result is None if the element is refused
RECURSIVE Ins(_, _, _)
Ins(n, e, var) ==
  IF ~n.leaf THEN
    LET child == IF n.exp < e.m[n.var] THEN n.hi ELSE n.lo
        sub == Ins(child, e, n.var)
        mask == IF TMask THEN n.mask \cap e.mask ELSE n.mask
    IN IF IsNone(sub) THEN None
       ELSE IF n.exp < e.m[n.var] THEN [n EXCEPT !.hi = sub, !.mask = mask] ELSE [n EXCEPT !.lo = sub, !.mask = mask]
  ELSE IF Len(n.es) < C.leaf THEN Leaf(PutIn(n.es, e), BoundIf(n.mask \cap e.mask))
  ELSE LET s == SplitAt(MonsOf(n.es) \cup {e.m}, var, NV)
           v == s[1]
           x == s[2]
           lo == Arrange(Low(n.es, v, x))
           hi == Arrange(High(n.es, v, x))
           lo2 == IF x < e.m[v] THEN lo ELSE PutIn(lo, e)
           hi2 == IF x < e.m[v] THEN PutIn(hi, e) ELSE hi
       IN IF v = 0 THEN None
          ELSE Node(v, x, Leaf(lo2, BoundIf(BoundOf(lo2))), Leaf(hi2, BoundIf(BoundOf(hi2))),
                    BoundIf(BoundOf(lo2) \cap BoundOf(hi2)))
\* a refused element leaves its mark on the masks of the nodes it passed
RECURSIVE Mark(_, _)
Mark(n, e) ==
  IF n.leaf THEN n
  ELSE LET mask == IF TMask THEN n.mask \cap e.mask ELSE n.mask IN
       IF n.exp < e.m[n.var] THEN [n EXCEPT !.hi = Mark(@, e), !.mask = mask]
       ELSE [n EXCEPT !.lo = Mark(@, e), !.mask = mask]

RECURSIVE Build(_, _)
Build(es, var) ==
  IF Len(es) <= C.leaf THEN LET a == Arrange(es) IN Leaf(a, BoundIf(BoundOf(a)))
  ELSE LET s == SplitAt(MonsOf(es), var, NV) IN
       Node(s[1], s[2], Build(Low(es, s[1], s[2]), s[1]), Build(High(es, s[1], s[2]), s[1]), BoundIf(BoundOf(es)))
RECURSIVE Flat(_)
Flat(n) == IF IsNone(n) THEN <<>> ELSE IF n.leaf THEN n.es ELSE Flat(n.lo) \o Flat(n.hi)
Entries == Range(Flat(root))

\* the search goes to the low side first, and to the high side only if it can hold a divisor
RECURSIVE DivsIn(_, _)
DivsIn(n, q) ==
  IF IsNone(n) THEN <<>>
  ELSE IF ~n.leaf THEN
    IF TMask /\ ~Can(n.mask, Mask(q, calc)) THEN <<>>
    ELSE DivsIn(n.lo, q) \o (IF n.exp < q[n.var] THEN DivsIn(n.hi, q) ELSE <<>>)
  ELSE IF TMask /\ C.leaf > 1 /\ ~Can(n.mask, Mask(q, calc)) THEN <<>>
  ELSE SelectSeq(IF C.sort /\ C.leaf > 1 THEN SubSeq(n.es, 1, Upper(n.es, q)) ELSE n.es, LAMBDA e : DividesE(e, q))
RECURSIVE MultsIn(_, _)
MultsIn(n, q) ==
  IF IsNone(n) THEN <<>>
  ELSE IF ~n.leaf THEN MultsIn(n.hi, q) \o (IF n.exp < q[n.var] THEN <<>> ELSE MultsIn(n.lo, q))
  ELSE SelectSeq(n.es, LAMBDA e : MultipleE(e, q))
RECURSIVE Prune(_, _)
Prune(n, q) ==
  IF ~n.leaf THEN [n EXCEPT !.hi = Prune(@, q), !.lo = IF n.exp < q[n.var] THEN @ ELSE Prune(@, q)]
  ELSE [n EXCEPT !.es = SelectSeq(@, LAMBDA e : ~MultipleE(e, q))]
RECURSIVE Without(_, _)
Without(n, q) ==
  IF ~n.leaf THEN (IF n.exp < q[n.var] THEN [n EXCEPT !.hi = Without(@, q)] ELSE [n EXCEPT !.lo = Without(@, q)])
  ELSE LET S == {k \in DOMAIN n.es : n.es[k].m = q} IN
       IF S = {} THEN n
       ELSE LET k == MinOf(S) IN [n EXCEPT !.es = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))]
IdsOf(s) == [k \in DOMAIN s |-> s[k].id]

-----------------------------------------------------------------------------
ByDefault == {<<1, 1>>, <<2, 1>>}
SomeCalcs == {{}, ByDefault, {<<1, 1>>, <<1, 2>>, <<2, 2>>}}
Reset(n) == IF n \div 2 > C.min THEN n \div 2 ELSE C.min
Masked(s, cl) == [k \in DOMAIN s |-> E(s[k].id, s[k].m, cl)]
\* after a change: r is the tree, n the number of elements now, d the number of changes
Settle(r, n, d) ==
  /\ size' = n /\ cache' = 0
  /\ IF C.auto /\ till <= d
     THEN /\ \E cl \in Calcs : calc' = cl /\ root' = Build(Masked(Flat(r), cl), 0)
          /\ till' = Reset(n)
     ELSE /\ root' = r /\ UNCHANGED calc
          /\ till' = IF C.auto THEN till - d ELSE till
Init ==
  /\ C \in [leaf : Leaves, masks : MaskModes, sort : Sorts, cache : Caches, auto : Autos, min : {1, 3}]
  /\ (~C.auto => C.min = 1)
  /\ root = None /\ cache = 0 /\ size = 0 /\ calc = ByDefault /\ next = 1
  /\ till = Reset(0) /\ ev = [e |-> "new"]

Insert(m) ==
  LET e == E(next, m, calc)
      r == IF IsNone(root) THEN Leaf(<<>>, Bits) ELSE root
      t == Ins(r, e, 0)
  IN /\ next' = next + 1
     /\ IF IsNone(t) THEN /\ ev' = [e |-> "refused", m |-> m] /\ root' = Mark(r, e)
                          /\ UNCHANGED <<cache, size, till, calc>>
        ELSE ev' = [e |-> "ins", m |-> m] /\ Settle(t, size + 1, 1)
Remove(q) ==
  LET out == MultsIn(root, q) IN
  /\ ev' = [e |-> "rem", q |-> q, out |-> IdsOf(out)] /\ UNCHANGED next
  /\ IF out = <<>> THEN UNCHANGED <<root, cache, size, till, calc>>
     ELSE Settle(Prune(root, q), size - Len(out), Len(out))
RemoveOne(q) ==
  LET t == IF IsNone(root) THEN root ELSE Without(root, q) IN
  /\ UNCHANGED next
  /\ ev' = [e |-> "one", q |-> q, r |-> t # root]
  /\ IF t = root THEN UNCHANGED <<root, cache, size, till, calc>> ELSE Settle(t, size - 1, 1)
Find(q) ==
  LET hit == C.cache /\ cache # 0 /\ \E e \in Entries : e.id = cache /\ Divides(e.m, q)
      ds == DivsIn(root, q)
      r == IF hit THEN cache ELSE IF ds = <<>> THEN -1 ELSE ds[1].id
  IN /\ ev' = [e |-> "find", q |-> q, r |-> r]
     /\ cache' = IF C.cache /\ r # -1 THEN r ELSE cache
     /\ UNCHANGED <<root, size, till, calc, next>>
Rebuild ==
  /\ \E cl \in Calcs :
       /\ calc' = cl
       /\ root' = IF Flat(root) = <<>> THEN None ELSE Build(Masked(Flat(root), cl), 0)
  /\ till' = IF C.auto THEN Reset(size) ELSE till
  /\ cache' = 0 /\ ev' = [e |-> "rebuild"] /\ UNCHANGED <<size, next>>
Clear ==
  /\ root' = None /\ size' = 0 /\ cache' = 0 /\ calc' = ByDefault /\ till' = IF C.auto THEN Reset(0) ELSE till
  /\ ev' = [e |-> "clear"] /\ UNCHANGED next

Next ==
  /\ UNCHANGED C
  /\ \/ next <= MaxIns /\ size < MaxLive /\ \E m \in Mons : Insert(m)
     \/ \E q \in Queries : Remove(q) \/ RemoveOne(q) \/ (C.cache /\ Find(q))
     \/ Rebuild \/ Clear
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
StoreOf(es) == [i \in {e.id : e \in es} |-> (CHOOSE e \in es : e.id = i).m]
A == INSTANCE DivFinder WITH
  store <- StoreOf(Entries), opts <- [leaf |-> C.leaf, sorted |-> FALSE, list |-> FALSE, rem |-> TRUE, ord |-> 0],
  Ids <- {}, Vars <- NV
Refines == [][
  CASE ev'.e = "ins" -> A!Insert(next, ev'.m)
    [] ev'.e = "refused" -> A!InsertRefused(next, ev'.m)
    [] ev'.e = "rem" -> A!RemoveMultiples(ev'.q, ev'.out # <<>>, ev'.out)
    [] ev'.e = "one" -> A!RemoveElement(ev'.q, ev'.r, IdsOf(Flat(root'))) 
    [] ev'.e = "find" -> A!FindDivisor(ev'.q, ev'.r)
    [] ev'.e = "rebuild" -> A!Rebuild
    [] ev'.e = "clear" -> A!Clear
    [] OTHER -> FALSE]_vars

\* in every state, every query would be answered rightly
Answers == \A q \in Mons :
  LET ds == DivsIn(root, q) ms == MultsIn(root, q) IN
  /\ A!Enumerates(IdsOf(ds), A!Divisors(q), 0)
  /\ A!Enumerates(IdsOf(ms), A!Multiples(q), 0)
Counted == size = Len(Flat(root))
CacheLive == cache # 0 => \E e \in Entries : e.id = cache
TillPositive == C.auto => till > 0
RECURSIVE Below(_)
Below(n) == IF n.leaf THEN Range(n.es) ELSE Below(n.lo) \cup Below(n.hi)
RECURSIVE Ordered(_)
Ordered(n) ==
  IF n.leaf THEN
    /\ Len(n.es) <= C.leaf
    /\ C.sort => \A k \in 1..(Len(n.es) - 1) : ~Less(n.es[k + 1].m, n.es[k].m)
    /\ TMask => \A e \in Range(n.es) : n.mask \subseteq e.mask
  ELSE
    /\ \A e \in Below(n.lo) : e.m[n.var] <= n.exp
    /\ \A e \in Below(n.hi) : e.m[n.var] > n.exp
    /\ TMask => \A e \in Below(n) : n.mask \subseteq e.mask
    /\ Ordered(n.lo) /\ Ordered(n.hi)
InOrder == IsNone(root) \/ Ordered(root)
MasksCurrent == EMask => \A e \in Entries : e.mask = Mask(e.m, calc)
==============================================================================
