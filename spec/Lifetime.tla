------------------------------ MODULE Lifetime ------------------------------
(* The lifetimes of the objects that a container is given: what every       *)
(* container of objects with their own construction, copying and            *)
(* destruction has to respect. obj maps each object that exists (named by   *)
(* where it is) to the value it holds; Hollow is what a move leaves behind. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLE obj
Exists == DOMAIN obj
Hollow == -999

NoObjects == [o \in {} |-> 0]
LifeInit == obj = NoObjects

Construct(o, v) == o \notin Exists /\ obj' = obj @@ (o :> v)
CopyConstruct(o, s) == o \notin Exists /\ s \in Exists /\ obj[s] # Hollow /\ obj' = obj @@ (o :> obj[s])
MoveConstruct(o, s) ==
  /\ o \notin Exists /\ s \in Exists /\ obj[s] # Hollow
  /\ obj' = [obj EXCEPT ![s] = Hollow] @@ (o :> obj[s])
Assign(o, s) == o \in Exists /\ s \in Exists /\ obj[s] # Hollow /\ obj' = [obj EXCEPT ![o] = obj[s]]
MoveAssign(o, s) ==
  /\ o \in Exists /\ s \in Exists
  /\ o # s => obj[s] # Hollow
  /\ obj' = IF o = s THEN obj ELSE [obj EXCEPT ![o] = obj[s], ![s] = Hollow]
Destroy(o) == o \in Exists /\ obj' = [x \in Exists \ {o} |-> obj[x]]
Read(o, v) == o \in Exists /\ obj[o] = v /\ v # Hollow /\ UNCHANGED obj
\* the container is gone and so are all its objects
Gone(live) == obj = NoObjects /\ live = 0 /\ UNCHANGED obj

CONSTANTS Places, Values
LifeNext ==
  \E o \in Places :
    \/ Destroy(o)
    \/ \E v \in Values : Construct(o, v)
    \/ \E s \in Places : CopyConstruct(o, s) \/ MoveConstruct(o, s) \/ Assign(o, s) \/ MoveAssign(o, s)
LifeSpec == LifeInit /\ [][LifeNext]_obj
=============================================================================
