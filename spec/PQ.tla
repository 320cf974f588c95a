--------------------------------- MODULE PQ ---------------------------------
(* What a user of a priority queue relies on. The queue holds entries, each  *)
(* named by a handle; an entry has a value and is the merge of a nonempty    *)
(* set of pushed entries (just itself unless duplicates are merged).         *)
(* Every action is a public call with its results, or one application of the *)
(* configuration's duplicate merging during a call.                          *)
EXTENDS Integers, FiniteSets, Sequences, TLC

VARIABLES
  live,    \* handle -> [v, ids]: exactly what is queued
  dedup,   \* may equal entries be merged
  shown,   \* the handle that top() showed and that nothing has replaced since, or 0
  out,     \* the pushed entries that have left the queue (popped, replaced or cleared)
  pushed   \* the pushed entries

pqvars == <<live, dedup, shown, out, pushed>>

Handles == DOMAIN live
None == [h \in {} |-> 0]
IsMax(h) == \A g \in Handles : live[g].v <= live[h].v
Drop(S) == [g \in Handles \ S |-> live[g]]
RangeOf(s) == {s[k] : k \in DOMAIN s}
IdsOf(S) == UNION {live[g].ids : g \in S}

New(d) == live' = None /\ dedup' = d /\ shown' = 0 /\ out' = {} /\ pushed' = {}

Push(h, v) ==
  /\ h \notin Handles
  /\ live' = live @@ (h :> [v |-> v, ids |-> {h}])
  /\ pushed' = pushed \cup {h}
  /\ shown' = 0
  /\ UNCHANGED <<dedup, out>>

\* where h is in hs; mostly they are consecutive
PlaceOf(h, hs) ==
  LET k == h - hs[1] + 1 IN IF k \in DOMAIN hs /\ hs[k] = h THEN k ELSE CHOOSE j \in DOMAIN hs : hs[j] = h
PushRange(hs, vs) ==
  /\ Len(hs) = Len(vs)
  /\ Cardinality(RangeOf(hs)) = Len(hs)
  /\ RangeOf(hs) \cap Handles = {}
  /\ live' = live @@ [h \in RangeOf(hs) |-> [v |-> vs[PlaceOf(h, hs)], ids |-> {h}]]
  /\ pushed' = pushed \cup RangeOf(hs)
  /\ shown' = 0
  /\ UNCHANGED <<dedup, out>>

\* duplicate merging replaces two queued entries of equal value by one that stands for both
Merge(a, b, c, va, vb) ==
  /\ dedup
  /\ a \in Handles /\ b \in Handles /\ a # b
  /\ live[a].v = va /\ live[b].v = vb /\ va = vb
  /\ c \notin Handles \ {a, b}
  /\ live' = Drop({a, b}) @@ (c :> [v |-> va, ids |-> live[a].ids \cup live[b].ids])
  /\ shown' = 0
  /\ UNCHANGED <<dedup, out, pushed>>

Top(h, v) ==
  /\ h \in Handles /\ live[h].v = v /\ IsMax(h)
  /\ shown \in {0, h}
  /\ shown' = h
  /\ UNCHANGED <<live, dedup, out, pushed>>

Pop(h, v) ==
  /\ h \in Handles /\ live[h].v = v /\ IsMax(h)
  /\ shown \in {0, h}
  /\ shown' = 0
  /\ live' = Drop({h})
  /\ out' = out \cup live[h].ids
  /\ UNCHANGED <<dedup, pushed>>

\* the shown top is replaced by an entry that is not larger
DecreaseTop(t, h, v) ==
  /\ t \in Handles /\ shown = t /\ IsMax(t)
  /\ v <= live[t].v
  /\ h \notin Handles
  /\ live' = Drop({t}) @@ (h :> [v |-> v, ids |-> {h}])
  /\ out' = out \cup live[t].ids
  /\ pushed' = pushed \cup {h}
  /\ shown' = 0
  /\ UNCHANGED dedup

Empty(r) == r = (Handles = {}) /\ UNCHANGED pqvars
Size(n) == n = Cardinality(Handles) /\ UNCHANGED pqvars

\* lim > 0: the visitor stops at the lim-th entry
VisitAll(lim, hs, vs) ==
  /\ Len(hs) = IF lim = 0 \/ lim > Cardinality(Handles) THEN Cardinality(Handles) ELSE lim
  /\ Len(vs) = Len(hs)
  /\ Cardinality(RangeOf(hs)) = Len(hs)
  /\ {k \in DOMAIN hs : ~(hs[k] \in Handles /\ live[hs[k]].v = vs[k])} = {}
  /\ UNCHANGED pqvars

Clear == live' = None /\ out' = out \cup IdsOf(Handles) /\ shown' = 0 /\ UNCHANGED <<dedup, pushed>>
Move == shown' = 0 /\ UNCHANGED <<live, dedup, out, pushed>>

-----------------------------------------------------------------------------
CONSTANTS Vals, MaxPush
PQInit == live = None /\ dedup \in BOOLEAN /\ shown = 0 /\ out = {} /\ pushed = {}
Fresh == Cardinality(pushed) + 1
MergeName == 100 + Cardinality(pushed) * 10 + Cardinality(Handles)
PQNext ==
  \/ Fresh <= MaxPush /\ \E v \in Vals : Push(Fresh, v)
  \/ Fresh < MaxPush /\ \E v, w \in Vals : PushRange(<<Fresh, Fresh + 1>>, <<v, w>>)
  \/ \E a, b \in Handles : \E c \in 100..120 : c = (CHOOSE x \in 100..120 : x \notin Handles) /\ Merge(a, b, c, live[a].v, live[b].v)
  \/ \E h \in Handles : Top(h, live[h].v) \/ Pop(h, live[h].v)
  \/ Fresh <= MaxPush /\ shown # 0 /\ \E v \in Vals : DecreaseTop(shown, Fresh, v)
  \/ Clear
  \/ Move
PQSpec == PQInit /\ [][PQNext]_pqvars

\* every pushed entry is in exactly one queued entry or has left the queue
Conserved ==
  /\ IdsOf(Handles) \cap out = {}
  /\ IdsOf(Handles) \cup out = pushed
  /\ \A g, h \in Handles : g # h => live[g].ids \cap live[h].ids = {}
  /\ \A g \in Handles : live[g].ids # {}
NoMergeWithoutDedup == ~dedup => \A g \in Handles : live[g].ids = {g}
ShownIsMax == shown # 0 => shown \in Handles /\ IsMax(shown)
\* pops come out in non-increasing order while nothing is pushed
PopOrder == [][\A h \in Handles : (h \notin DOMAIN live' /\ pushed' = pushed /\ Cardinality(DOMAIN live') = Cardinality(Handles) - 1 /\ out' # out)
                 => \A g \in DOMAIN live' : live'[g].v <= live[h].v]_pqvars
=============================================================================
