------------------------------ MODULE Storage -------------------------------
(* The storage of the data structures. A structure (named by its slot)      *)
(* takes blocks of memory while one of its operations runs and gives them   *)
(* back; each block is given back once, in the form in which it was taken,  *)
(* and none outlives the structure that owns it. When a structure is made   *)
(* from another one by moving, the blocks are the new one's.                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Slots, Blocks
VARIABLES
  form,    \* [blocks in use -> "one" or "array"]
  owner,   \* [blocks in use -> Slots]
  cur      \* the structure whose operation runs
svars == <<form, owner, cur>>
Used == DOMAIN form
OwnedBy(s) == {b \in Used : owner[b] = s}
Nothing == [b \in {} |-> 0]

SInit == form = Nothing /\ owner = Nothing /\ cur \in Slots
Call(s) == cur' = s /\ UNCHANGED <<form, owner>>
Take(b, f) == b \notin Used /\ form' = form @@ (b :> f) /\ owner' = owner @@ (b :> cur) /\ UNCHANGED cur
Give(b, f) ==
  /\ b \in Used /\ form[b] = f
  /\ LET rest == Used \ {b} IN form' = [x \in rest |-> form[x]] /\ owner' = [x \in rest |-> owner[x]]
  /\ UNCHANGED cur
\* the structure at s has been made by moving the one at f, which keeps these blocks
Moved(s, f, keep) ==
  /\ keep \subseteq OwnedBy(f)
  /\ owner' = [b \in Used |-> IF owner[b] = f /\ b \notin keep THEN s ELSE owner[b]] /\ UNCHANGED <<form, cur>>
\* the structure at s is gone, and so are its blocks
Destroyed(s) == OwnedBy(s) = {} /\ UNCHANGED svars
\* all structures are gone
End(left) == left = 0 /\ Used = {} /\ UNCHANGED svars

SNext ==
  \/ \E s \in Slots : Call(s) \/ Destroyed(s) \/ (\E f \in Slots : \E keep \in SUBSET OwnedBy(f) : Moved(s, f, keep))
  \/ \E b \in Blocks, f \in {"one", "array"} : Take(b, f) \/ Give(b, f)
SSpec == SInit /\ [][SNext]_svars
=============================================================================
