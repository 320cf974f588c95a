---------------------------- MODULE MinDivFinder ----------------------------
(* A divisor finder that keeps only minimal elements when asked to: what the *)
(* divisor simulation models (DivListModel, KDTreeModel) promise.            *)
EXTENDS DivFinder
VARIABLES
  mini,   \* whether insertion minimises
  ever    \* the monomials inserted so far
mvars == <<dfvars, mini, ever>>

MinNew(o, m) == New(o) /\ mini' = m /\ ever' = {}

\* out: the elements reported as made redundant (tells: whether the caller asked for them)
MinInsert(id, m, tells, out) ==
  /\ id \notin Live
  /\ ever' = ever \cup {m}
  /\ UNCHANGED <<mini, opts>>
  /\ IF ~mini THEN out = <<>> /\ store' = store @@ (id :> m)
     ELSE IF Divisors(m) # {} THEN out = <<>> /\ UNCHANGED store
     ELSE /\ (tells => Enumerates(out, Multiples(m), 0)) /\ (~tells => out = <<>>)
          /\ store' = Without(Multiples(m)) @@ (id :> m)
MinInsertRefused(id, m) == ~mini /\ InsertRefused(id, m) /\ UNCHANGED <<mini, ever>>

Minimal(S) == {a \in S : \A b \in S : Divides(b, a) => a = b}
\* with minimisation exactly the minimal monomials are held, each once; without, everything is held
HoldsMinimal ==
  IF mini THEN {store[i] : i \in Live} = Minimal(ever) /\ \A i, j \in Live : store[i] = store[j] => i = j
  ELSE {store[i] : i \in Live} = ever

RECURSIVE SetToSeqAny(_)
SetToSeqAny(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeqAny(S \ {x})
MDInit == DFInit /\ mini \in BOOLEAN /\ ever = {}
MDNext == \E m \in Mons : \E id \in Ids :
  /\ id \notin Live /\ (\A j \in Ids : j < id => j \in Live)
  /\ \E out \in {SetToSeqAny(IF mini /\ Divisors(m) = {} THEN Multiples(m) ELSE {})} : MinInsert(id, m, TRUE, out)
FewEver == Cardinality(ever) <= 5
MDSpec == MDInit /\ [][MDNext]_mvars
=============================================================================
