------------------------------- MODULE ListImpl -------------------------------
(* mathic/DivList.h: an array or a linked list of entries, in the order of     *)
(* insertion or sorted. A search of a sorted array ends where larger elements  *)
(* begin; a search of a sorted linked list looks every C.step elements (35 in  *)
(* the code) whether it has got that far. Entries carry masks made by a        *)
(* calculator that a rebuild, or a first range, replaces. Checked by TLC:      *)
(* every call is a step of DivFinder and every query is answered as it says.   *)
EXTENDS Monomials, TLC

CONSTANTS Exps, MaxIns, MaxLive, Steps, Calcs
VARIABLES C, L, calc, till, next, ev
vars == <<C, L, calc, till, next, ev>>
View == <<C, L, calc, till, next>>

NV == 2
Mons == MonomialsOver(NV, Exps)
Bits == {<<v, t>> : v \in 1..NV, t \in 1..3}
Mask(m, cl) == {b \in cl : m[b[1]] >= b[2]}
E(i, m, cl) == [id |-> i, m |-> m, mask |-> IF C.mask THEN Mask(m, cl) ELSE {}]
DividesE(e, q) == (~C.mask \/ e.mask \subseteq Mask(q, calc)) /\ Divides(e.m, q)
MultipleE(e, q) == (~C.mask \/ Mask(q, calc) \subseteq e.mask) /\ Divides(q, e.m)
IdsOf(s) == [k \in DOMAIN s |-> s[k].id]

RECURSIVE Upper(_, _)
Upper(es, m) == IF es = <<>> \/ Less(m, es[1].m) THEN 0 ELSE 1 + Upper(Tail(es), m)
PutIn(es, e) ==
  IF ~C.sort THEN Append(es, e)
  ELSE LET k == Upper(es, e.m) IN SubSeq(es, 1, k) \o <<e>> \o SubSeq(es, k + 1, Len(es))
\* how many elements a search for divisors of q looks at
Reach(q) ==
  IF ~C.sort THEN Len(L)
  ELSE IF ~C.linked THEN Upper(L, q)
  ELSE LET S == {k \in 1..Len(L) : (k % C.step) = 0 /\ Less(q, L[k].m)} IN
       IF S = {} THEN Len(L) ELSE (CHOOSE k \in S : \A j \in S : k <= j) - 1
DivsOf(q) == SelectSeq(SubSeq(L, 1, Reach(q)), LAMBDA e : DividesE(e, q))
MultsOf(q) == SelectSeq(L, LAMBDA e : MultipleE(e, q))

-----------------------------------------------------------------------------
ByDefault == {<<1, 1>>, <<2, 1>>}
SomeCalcs == {{}, ByDefault, {<<1, 1>>, <<1, 2>>, <<2, 2>>}}
Reset(n) == IF ~C.auto THEN 0 ELSE IF n \div 2 > C.min THEN n \div 2 ELSE C.min
Masked(s, cl) == [k \in DOMAIN s |-> E(s[k].id, s[k].m, cl)]
Settle(s, d) ==
  IF C.auto /\ till <= d
  THEN /\ \E cl \in Calcs : calc' = cl /\ L' = Masked(s, cl)
       /\ till' = Reset(Len(s))
  ELSE L' = s /\ UNCHANGED calc /\ till' = IF C.auto THEN till - d ELSE till
Init ==
  /\ C \in [linked : BOOLEAN, sort : BOOLEAN, mask : BOOLEAN, auto : BOOLEAN, min : {1, 3}, step : Steps]
  /\ (~C.auto => C.min = 1) /\ (~(C.linked /\ C.sort) => C.step = CHOOSE k \in Steps : TRUE)
  /\ L = <<>> /\ calc = ByDefault /\ next = 1 /\ till = Reset(0) /\ ev = [e |-> "new"]

Insert(m) == next' = next + 1 /\ ev' = [e |-> "ins", m |-> m] /\ Settle(PutIn(L, E(next, m, calc)), 1)
\* a range put into an empty list
First(m1, m2) ==
  /\ L = <<>> /\ next' = next + 2 /\ ev' = [e |-> "range", s |-> <<m1, m2>>]
  /\ \E cl \in Calcs : calc' = cl /\ L' = PutIn(PutIn(<<>>, E(next, m1, cl)), E(next + 1, m2, cl))
  /\ till' = Reset(2)
Remove(q) ==
  LET out == MultsOf(q) IN
  /\ ev' = [e |-> "rem", q |-> q, out |-> IdsOf(out)] /\ UNCHANGED next
  /\ Settle(SelectSeq(L, LAMBDA e : ~MultipleE(e, q)), Len(out))
RemoveOne(q) ==
  LET S == {k \in DOMAIN L : L[k].m = q} IN
  /\ UNCHANGED <<next, calc, till>> /\ ev' = [e |-> "one", q |-> q, r |-> S # {}]
  /\ IF S = {} THEN UNCHANGED L
     ELSE LET k == CHOOSE k \in S : \A j \in S : k <= j IN L' = SubSeq(L, 1, k - 1) \o SubSeq(L, k + 1, Len(L))
ToFront(k) ==
  /\ ~C.sort /\ UNCHANGED <<next, calc, till>> /\ ev' = [e |-> "front", id |-> L[k].id]
  /\ L' = <<L[k]>> \o SubSeq(L, 1, k - 1) \o SubSeq(L, k + 1, Len(L))
Rebuild ==
  /\ \E cl \in Calcs : calc' = cl /\ L' = Masked(L, cl)
  /\ till' = Reset(Len(L)) /\ ev' = [e |-> "rebuild"] /\ UNCHANGED next
Next ==
  /\ UNCHANGED C
  /\ \/ next <= MaxIns /\ Len(L) < MaxLive /\ \E m \in Mons : Insert(m)
     \/ next < MaxIns /\ MaxLive >= 2 /\ \E m1, m2 \in Mons : First(m1, m2)
     \/ \E q \in Mons : Remove(q) \/ RemoveOne(q)
     \/ \E k \in DOMAIN L : ToFront(k)
     \/ Rebuild
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
StoreOf(es) == [i \in {es[k].id : k \in DOMAIN es} |-> (CHOOSE e \in Range(es) : e.id = i).m]
A == INSTANCE DivFinder WITH
  store <- StoreOf(L), opts <- [leaf |-> 0, sorted |-> C.sort, list |-> TRUE, rem |-> TRUE, ord |-> 0], Ids <- {}, Vars <- NV
Refines == [][
  CASE ev'.e = "ins" -> A!Insert(next, ev'.m)
    [] ev'.e = "range" -> A!InsertRange(<<next, next + 1>>, ev'.s)
    [] ev'.e = "rem" -> A!RemoveMultiples(ev'.q, ev'.out # <<>>, ev'.out)
    [] ev'.e = "one" -> A!RemoveElement(ev'.q, ev'.r, IdsOf(L'))
    [] ev'.e = "front" -> A!MoveToFront(ev'.id, L'[1].id)
    [] ev'.e = "rebuild" -> A!Rebuild
    [] OTHER -> FALSE]_vars
Answers == \A q \in Mons :
  LET ds == DivsOf(q) ms == MultsOf(q) IN
  /\ A!Enumerates(IdsOf(ds), A!Divisors(q), 0)
  /\ A!Enumerates(IdsOf(ms), A!Multiples(q), 0)
InOrder == C.sort => A!SortedSeq(IdsOf(L))
MasksCurrent == C.mask => \A k \in DOMAIN L : L[k].mask = Mask(L[k].m, calc)
TillPositive == C.auto => till > 0
==============================================================================
