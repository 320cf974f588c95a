----------------------------- MODULE EntryArray -----------------------------
(* A leaf of a k-d tree: entries live in raw memory of Room places, the     *)
(* first size of which hold objects. An operation is a sequence of steps on *)
(* single objects (todo). Checked by TLC: every step is one that Lifetime   *)
(* allows, and between operations exactly the first places hold objects,    *)
(* with the values that the operations on lists of values give. Two arrays  *)
(* are modelled because splitting a leaf moves entries from one to another. *)
EXTENDS Lifetime

CONSTANT Room
VARIABLES
  size,   \* [1..2 -> 0..Room]
  todo,   \* remaining steps of the operation being performed
  list    \* [1..2 -> Seq(Values)], what the operations are meant to give

vars == <<obj, size, todo, list>>
Arg == <<0, 0>>                  \* the caller's entry
At(a, k) == <<a, k>>

Step(s) ==
  CASE s[1] = "copy" -> CopyConstruct(s[2], s[3])
    [] s[1] = "asg" -> Assign(s[2], s[3])
    [] s[1] = "dtor" -> Destroy(s[2])

Init == LifeInit /\ size = <<0, 0>> /\ todo = <<>> /\ list = <<<<>>, <<>>>>
Idle == todo = <<>>
Start(steps, a, n, l) ==
  /\ Idle /\ steps # <<>>
  /\ todo' = steps
  /\ size' = [size EXCEPT ![a] = n]
  /\ list' = [list EXCEPT ![a] = l]
  /\ UNCHANGED obj

NewArg == Idle /\ Arg \notin Exists /\ \E v \in Values : Construct(Arg, v) /\ UNCHANGED <<size, todo, list>>
DropArg == Idle /\ Arg \in Exists /\ Destroy(Arg) /\ UNCHANGED <<size, todo, list>>

PushBack(a) ==
  /\ Arg \in Exists /\ size[a] < Room
  /\ Start(<<<<"copy", At(a, size[a] + 1), Arg>>>>, a, size[a] + 1, Append(list[a], obj[Arg]))

\* insertion in the middle: copy the last one up, shift by assignment, assign the new one
Down(a, from, to) == [j \in 1..(from - to) |-> <<"asg", At(a, from - j + 1), At(a, from - j)>>]
InsertAt(a, k) ==
  /\ Arg \in Exists /\ size[a] < Room /\ k \in 1..size[a]
  /\ Start(<<<<"copy", At(a, size[a] + 1), At(a, size[a])>>>> \o Down(a, size[a], k) \o <<<<"asg", At(a, k), Arg>>>>,
           a, size[a] + 1, SubSeq(list[a], 1, k - 1) \o <<obj[Arg]>> \o SubSeq(list[a], k, size[a]))

Pops(a, n) == [j \in 1..n |-> <<"dtor", At(a, size[a] - j + 1)>>]
Clear(a) == Start(Pops(a, size[a]), a, 0, <<>>)

\* the kept entries move down over the removed ones, then the rest is destroyed
Keep(a, S) == SelectSeq([k \in 1..size[a] |-> k], LAMBDA k : k \notin S)
Remove(a, S) ==
  LET keep == Keep(a, S)
      moves == SelectSeq([j \in 1..Len(keep) |-> <<"asg", At(a, j), At(a, keep[j])>>], LAMBDA m : m[2] # m[3])
  IN /\ S # {} /\ S \subseteq 1..size[a]
     /\ Start(moves \o Pops(a, Cardinality(S)), a, Len(keep), [j \in 1..Len(keep) |-> list[a][keep[j]]])

\* splitting: the entries from place k on are copied to the other, empty, array and destroyed here
Split(k) ==
  /\ Idle /\ size[2] = 0 /\ k \in 1..size[1]
  /\ LET n == size[1] - k + 1 IN
     /\ todo' = [j \in 1..n |-> <<"copy", At(2, j), At(1, k + j - 1)>>] \o Pops(1, n)
     /\ size' = <<k - 1, n>>
     /\ list' = <<SubSeq(list[1], 1, k - 1), SubSeq(list[1], k, size[1])>>
  /\ UNCHANGED obj

Next ==
  \/ NewArg \/ DropArg
  \/ ~Idle /\ Step(Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<size, list>>
  \/ \E a \in 1..2 : PushBack(a) \/ Clear(a) \/ (\E k \in 1..Room : InsertAt(a, k)) \/ (\E S \in SUBSET (1..size[a]) : Remove(a, S))
  \/ \E k \in 1..Room : Split(k)
Spec == Init /\ [][Next]_vars

\* an operation never gets stuck in the middle: its next step is always possible
NoStuck == ~Idle => LET s == Head(todo) IN
  /\ s[1] = "copy" => s[2] \notin Exists /\ s[3] \in Exists
  /\ s[1] = "asg" => s[2] \in Exists /\ s[3] \in Exists
  /\ s[1] = "dtor" => s[2] \in Exists
Exact == Idle =>
  /\ Exists \ {Arg} = UNION {{At(a, k) : k \in 1..size[a]} : a \in 1..2}
  /\ \A a \in 1..2 : Len(list[a]) = size[a] /\ \A k \in 1..size[a] : obj[At(a, k)] = list[a][k]
RefinesLifetime == [][LifeNext]_obj
PlacesDef == {Arg} \cup {At(a, k) : a \in 1..2, k \in 1..Room}
=============================================================================
