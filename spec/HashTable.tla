----------------------------- MODULE HashTable -----------------------------
(* The hash table as its user sees it: a map from classes of equal keys to   *)
(* entries; an entry has an identity (the handle), the key first given and a *)
(* value that the user may change. Keys are numbers; two keys are equal to   *)
(* the configuration if they agree modulo mod.                               *)
EXTENDS Integers, FiniteSets, Sequences, TLC
VARIABLES
  tab,   \* class of keys -> [h, k, v]
  mod    \* the configuration's notion of equal keys
hvars == <<tab, mod>>

None == [x \in {} |-> 0]
Class(k) == k % mod
Known == DOMAIN tab
HandlesInUse == {tab[c].h : c \in Known}

New(m) == tab' = None /\ mod' = m

\* h, hk, hv: identity, key and value of the entry the call gives access to
Insert(k, v, r, h, hk, hv) ==
  /\ IF Class(k) \in Known
     THEN ~r /\ tab[Class(k)] = [h |-> h, k |-> hk, v |-> hv] /\ UNCHANGED tab
     ELSE /\ r /\ hk = k /\ hv = v
          /\ h \notin HandlesInUse
          /\ tab' = tab @@ (Class(k) :> [h |-> h, k |-> k, v |-> v])
  /\ UNCHANGED mod

\* many insertions of absent keys at once
InsertMany(ks, vs, hs) ==
  LET cs == {Class(ks[i]) : i \in DOMAIN ks}
      ids == {hs[i] : i \in DOMAIN hs} IN
  /\ cs \cap Known = {} /\ ids \cap HandlesInUse = {}
  /\ Cardinality(cs) = Len(ks) /\ Cardinality(ids) = Len(ks) /\ Len(hs) = Len(ks)
  /\ tab' = tab @@ [c \in {Class(ks[i]) : i \in DOMAIN ks} |->
                      (LET i == CHOOSE j \in DOMAIN ks : Class(ks[j]) = c IN [h |-> hs[i], k |-> ks[i], v |-> vs[i]])]
  /\ UNCHANGED mod

\* h = 0: reported absent
Lookup(k, h, hk, hv) ==
  /\ IF Class(k) \in Known THEN tab[Class(k)] = [h |-> h, k |-> hk, v |-> hv] ELSE h = 0
  /\ UNCHANGED hvars

\* many lookups at once: the reported entries are exactly those of the keys present
LookupMany(ks, found) ==
  /\ found = [i \in DOMAIN ks |-> IF Class(ks[i]) \in Known
                                  THEN <<tab[Class(ks[i])].h, tab[Class(ks[i])].k, tab[Class(ks[i])].v>> ELSE <<0, 0, 0>>]
  /\ UNCHANGED hvars

\* an entry is read through its handle
Read(h, hk, hv) == (\E c \in Known : tab[c] = [h |-> h, k |-> hk, v |-> hv]) /\ UNCHANGED hvars
SetValue(h, v) ==
  /\ \E c \in Known : tab[c].h = h /\ tab' = [tab EXCEPT ![c].v = v]
  /\ UNCHANGED mod
Remove(h) ==
  /\ \E c \in Known : tab[c].h = h /\ tab' = [d \in Known \ {c} |-> tab[d]]
  /\ UNCHANGED mod
Reset == Known = {} /\ UNCHANGED hvars
HardReset == tab' = None /\ UNCHANGED mod

-----------------------------------------------------------------------------
CONSTANTS KeySet, ValSet, HandleSet
HInit == tab = None /\ mod \in {2, 3, 100}
HNext ==
  \/ \E k \in KeySet, v \in ValSet :
       LET fresh == CHOOSE h \in HandleSet : h \notin HandlesInUse
           e == IF Class(k) \in Known THEN tab[Class(k)] ELSE [h |-> fresh, k |-> k, v |-> v] IN
       Insert(k, v, Class(k) \notin Known, e.h, e.k, e.v)
  \/ \E h \in HandlesInUse : Remove(h) \/ \E v \in ValSet : SetValue(h, v)
  \/ Reset \/ HardReset
HSpec == HInit /\ [][HNext]_hvars

OneEntryPerHandle == \A c, d \in Known : tab[c].h = tab[d].h => c = d
KeyInItsClass == \A c \in Known : Class(tab[c].k) = c
\* an entry in the table never changes its identity or key while its key stays present
Stable == [][\A c \in Known \cap DOMAIN tab' : tab'[c].h = tab[c].h => tab'[c].k = tab[c].k]_hvars
FirstWins == [][\A c \in Known : c \in DOMAIN tab' => tab'[c].k = tab[c].k]_hvars
=============================================================================
