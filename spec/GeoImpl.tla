------------------------------- MODULE GeoImpl -------------------------------
(* mathic/Geobucket.h and GeoFront.h: buckets of growing capacity, each a    *)
(* sorted sequence whose largest entry is last, and a front: either the      *)
(* buckets that have entries in order of their largest entry (track), or a   *)
(* cached bucket whose largest entry is the largest of all. A bucket's       *)
(* largest entry is read from a copy kept beside it (collect). Checked by    *)
(* TLC: every call is a step of MergingPQ, and between calls buckets are     *)
(* sorted and within their capacity, copies and front are up to date and     *)
(* what is counted is what there is. C holds the configuration: all of them  *)
(* are checked in one run, except that Dedup is a constant.                  *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Vals, MaxPush, MaxRange, Dedup, Factors, MinBs, Bases
VARIABLES C, S, next, ev
vars == <<C, S, next, ev>>
\* S.b: the buckets, S.f: the front, S.max: the cached bucket or 0, S.n: the count

RangeOf(s) == {s[k] : k \in DOMAIN s}
Entries == UNION {RangeOf(S.b[i].s) : i \in DOMAIN S.b}
A == INSTANCE MergingPQ WITH bag <- Entries

Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]
Reverse(s) == [k \in DOMAIN s |-> s[Len(s) + 1 - k]]
None == [v |-> 0, ids |-> {}]
Dd(a, b) == [v |-> a.v, ids |-> a.ids \cup b.ids]

Empty(T, i) == T.b[i].s = <<>>
Back(T, i) == IF C.collect THEN T.b[i].back ELSE Last(T.b[i].s)
\* bucket i now holds s: the copy of the largest entry is made from s
Put(T, i, s) == [T EXCEPT !.b[i].s = s, !.b[i].back = IF s = <<>> THEN @ ELSE Last(s)]
PutClear(T, i) == [T EXCEPT !.b[i].s = <<>>]
PopBack(T, i) == Put(T, i, Front(T.b[i].s))
SetBack(T, i, e) == Put(T, i, [T.b[i].s EXCEPT ![Len(T.b[i].s)] = e])

RECURSIVE Merge(_, _)
Merge(a, b) ==
  IF a = <<>> THEN b
  ELSE IF b = <<>> THEN a
  ELSE IF a[1].v < b[1].v THEN <<a[1]>> \o Merge(Tail(a), b)
  ELSE IF ~Dedup \/ a[1].v # b[1].v THEN <<b[1]>> \o Merge(a, Tail(b))
  ELSE <<Dd(a[1], b[1])>> \o Merge(Tail(a), Tail(b))
Lost(a, b) == Len(a) + Len(b) - Len(Merge(a, b))
Fewer(T, k) == [T EXCEPT !.n = @ - k]

-----------------------------------------------------------------------------
(* The front *)
Pos(T, i) == IF \E p \in DOMAIN T.f : T.f[p] = i THEN CHOOSE p \in DOMAIN T.f : T.f[p] = i ELSE 0
Swap(f, p, q) == [f EXCEPT ![p] = f[q], ![q] = f[p]]
RECURSIVE MoveUp(_, _)
MoveUp(T, p) ==
  IF p = 1 \/ ~(Back(T, T.f[p - 1]).v < Back(T, T.f[p]).v) THEN T
  ELSE MoveUp([T EXCEPT !.f = Swap(T.f, p - 1, p)], p - 1)
KeyIncreased(T, i) == IF C.track THEN MoveUp(T, Pos(T, i)) ELSE [T EXCEPT !.max = 0]
FInsert(T, i) == IF C.track THEN MoveUp([T EXCEPT !.f = Append(@, i)], Len(T.f) + 1) ELSE [T EXCEPT !.max = 0]
FRemove(T, i) ==
  IF C.track THEN [T EXCEPT !.f = LET p == Pos(T, i) IN SubSeq(@, 1, p - 1) \o SubSeq(@, p + 1, Len(@))]
  ELSE [T EXCEPT !.max = 0]
SwapKeys(T, i, j) ==
  IF C.track THEN [T EXCEPT !.f = [p \in DOMAIN @ |-> IF @[p] = i THEN j ELSE IF @[p] = j THEN i ELSE @[p]]]
  ELSE T
RECURSIVE MoveDown(_, _)
MoveDown(T, i) ==
  LET p == Pos(T, i) IN
  IF p = Len(T.f) THEN T
  ELSE LET o == T.f[p + 1] IN
  IF Back(T, i).v < Back(T, o).v THEN MoveDown([T EXCEPT !.f = Swap(T.f, p, p + 1)], i)
  ELSE IF ~Dedup \/ Back(T, i).v # Back(T, o).v THEN T
  ELSE LET T1 == Fewer(PopBack(SetBack(T, o, Dd(Back(T, i), Back(T, o))), i), 1) IN
       IF Empty(T1, i) THEN FRemove(T1, i)
       ELSE MoveDown([T1 EXCEPT !.f = Swap(T1.f, p, p + 1)], i)
KeyDecreased(T, i) ==
  IF ~C.track THEN [T EXCEPT !.max = 0]
  ELSE IF Empty(T, i) THEN FRemove(T, i) ELSE MoveDown(T, i)
\* the linear search: equal largest entries are merged on the way
RECURSIVE Scan(_, _, _)
Scan(T, m, i) ==
  IF i > Len(T.b) THEN [T EXCEPT !.max = m]
  ELSE IF Empty(T, i) THEN Scan(T, m, i + 1)
  ELSE IF m = 0 THEN Scan(T, i, i + 1)
  ELSE IF Back(T, i).v < Back(T, m).v THEN Scan(T, m, i + 1)
  ELSE IF Dedup /\ Back(T, i).v = Back(T, m).v
       THEN Scan(Fewer(PopBack(SetBack(T, m, Dd(Back(T, m), Back(T, i))), i), 1), m, i + 1)
  ELSE Scan(T, i, i + 1)
Found(T) == IF C.track \/ T.max # 0 THEN T ELSE Scan(T, 0, 1)
MaxBucket(T) == IF C.track THEN T.f[1] ELSE T.max

-----------------------------------------------------------------------------
(* The buckets *)
AddBucket(T) ==
  [T EXCEPT !.b = Append(@, [c |-> IF @ = <<>> THEN C.minb ELSE Last(@).c * C.base, s |-> <<>>, back |-> None]),
            !.max = 0]
MergeRange(T, i, s) ==
  KeyIncreased(Fewer(Put(T, i, Merge(T.b[i].s, s)), Lost(T.b[i].s, s)), i)
MergeBucket(T, to, from) ==
  LET T1 == IF ~C.track \/ Pos(T, from) < Pos(T, to) THEN SwapKeys(T, to, from) ELSE T
  IN FRemove(PutClear(MergeRange(T1, to, T.b[from].s), from), from)
MergeToEmpty(T, to, from, s) ==
  LET T1 == Fewer(Put(T, to, Merge(s, T.b[from].s)), Lost(s, T.b[from].s))
  IN KeyIncreased(SwapKeys(PutClear(T1, from), from, to), to)
MoveToEmpty(T, to, from) == SwapKeys(PutClear(Put(T, to, T.b[from].s), from), from, to)
Assign(T, i, s) == FInsert(Put(T, i, s), i)

\* with premerge: the first bucket from i that has room for what comes to it
RECURSIVE RoomFrom(_, _, _)
RoomFrom(T, i, n) ==
  IF i > Len(T.b) \/ Len(T.b[i].s) + n <= T.b[i].c THEN i ELSE RoomFrom(T, i + 1, Len(T.b[i].s))
RECURSIVE Shift(_, _, _)
Shift(T, r, i) == IF r = i THEN T ELSE Shift(MoveToEmpty(T, r, r - 1), r - 1, i)
InsertPremerge(T, i, s) ==
  LET r == RoomFrom(T, i, Len(s))
      T1 == IF r > Len(T.b) THEN AddBucket(T) ELSE T
      T2 == IF r = i THEN T1
            ELSE IF Empty(T1, r) THEN Shift(T1, r, i)
            ELSE Shift(MergeBucket(T1, r, r - 1), r - 1, i)
  IN IF Empty(T2, i) THEN Assign(T2, i, s) ELSE MergeRange(T2, i, s)

\* without: there have to be buckets enough for everything on the way
RECURSIVE Enough(_, _, _)
Enough(T, i, n) ==
  LET T1 == IF i > Len(T.b) THEN AddBucket(T) ELSE T
      m == n + Len(T1.b[i].s)
  IN IF m <= T1.b[i].c THEN T1 ELSE Enough(T1, i + 1, m)
Take(T, i, s) == FRemove(PutClear(Fewer(T, Lost(s, T.b[i].s)), i), i)
RECURSIVE Cascade(_, _, _)
Cascade(T, i, s) ==
  IF Len(s) + Len(T.b[i].s) <= T.b[i].c THEN MergeRange(T, i, s)
  ELSE IF Empty(T, i + 1) THEN MergeToEmpty(T, i + 1, i, s)
  ELSE Cascade(Take(T, i, s), i + 1, Merge(s, T.b[i].s))
InsertPlain(T, i, s) ==
  IF Empty(T, i) THEN Assign(T, i, s)
  ELSE IF Len(T.b[i].s) + Len(s) <= T.b[i].c THEN MergeRange(T, i, s)
  ELSE LET T1 == Enough(T, i + 1, Len(T.b[i].s) + Len(s)) IN
       IF Empty(T1, i + 1) THEN MergeToEmpty(T1, i + 1, i, s)
       ELSE Cascade(Take(T1, i, s), i + 1, Merge(s, T1.b[i].s))
Insert(T, i, s) == IF C.premerge THEN InsertPremerge(T, i, s) ELSE InsertPlain(T, i, s)

\* where a single entry goes in the smallest bucket: <<position, found equal>>
RECURSIVE Binary(_, _, _, _)
Binary(s, v, from, range) ==
  IF range = 0 THEN <<from, FALSE>>
  ELSE LET mid == from + range \div 2 IN
  IF v < s[mid].v THEN Binary(s, v, from, range \div 2)
  ELSE IF ~Dedup \/ v # s[mid].v THEN Binary(s, v, mid + 1, range - (range \div 2 + 1))
  ELSE <<mid, TRUE>>
RECURSIVE Linear(_, _, _)
Linear(s, v, k) ==
  IF k > Len(s) \/ v < s[k].v THEN <<k, FALSE>>
  ELSE IF Dedup /\ v = s[k].v THEN <<k, TRUE>> ELSE Linear(s, v, k + 1)
InsertOne(T, e) ==
  LET T0 == Fewer(T, -1)
      s == T.b[1].s
      n == Len(s)
  IN IF n = T.b[1].c THEN Insert(T0, 1, <<e>>)
     ELSE IF n = 0 THEN FInsert(Put(T0, 1, <<e>>), 1)
     ELSE LET w == IF C.binary THEN Binary(s, e.v, 1, n) ELSE Linear(s, e.v, 1)
              k == w[1]
          IN IF w[2] THEN LET T1 == [T EXCEPT !.b[1].s[k] = Dd(@, e)] IN
                          IF k = n THEN [T1 EXCEPT !.b[1].back = Last(T1.b[1].s)] ELSE T1
             ELSE IF k = n + 1 THEN KeyIncreased(Put(T0, 1, Append(s, e)), 1)
             ELSE [T0 EXCEPT !.b[1].s = SubSeq(s, 1, k - 1) \o <<e>> \o SubSeq(s, k, n)]

RECURSIVE Reserve(_, _)
Reserve(T, n) == IF n > Last(T.b).c THEN Reserve(AddBucket(T), n) ELSE T
\* s in decreasing order
InsertRange(T, s) ==
  LET T1 == Reserve(Fewer(T, -Len(s)), Len(s) * C.factor)
      i == CHOOSE i \in DOMAIN T1.b : /\ Len(s) * C.factor <= T1.b[i].c
                                      /\ \A j \in 1..(i - 1) : Len(s) * C.factor > T1.b[j].c
  IN Insert(T1, i, Reverse(s))
TakeTop(T) ==
  LET T1 == Found(T)
      i == MaxBucket(T1)
  IN KeyDecreased(Fewer(PopBack(T1, i), 1), i)
TopOf(T) == LET T1 == Found(T) IN Back(T1, MaxBucket(T1))

-----------------------------------------------------------------------------
Configs == [track : BOOLEAN, premerge : BOOLEAN, binary : BOOLEAN, collect : BOOLEAN,
            factor : Factors, minb : MinBs, base : Bases]
Init ==
  /\ C \in Configs
  /\ S = AddBucket([b |-> <<>>, f |-> <<>>, max |-> 0, n |-> 0])
  /\ next = 1 /\ ev = [e |-> "new"]

E(v) == A!Entry(v, next)
Push(v) == S' = InsertOne(S, E(v)) /\ next' = next + 1 /\ ev' = [e |-> "push", v |-> v]
Descending ==
  UNION {{s \in [1..n -> Vals] : \A k \in 1..(n - 1) : s[k] > s[k + 1] \/ (~Dedup /\ s[k] = s[k + 1])} : n \in 2..MaxRange}
PushRange(s) ==
  /\ next + Len(s) - 1 <= MaxPush
  /\ S' = InsertRange(S, [k \in DOMAIN s |-> A!Entry(s[k], next + k - 1)])
  /\ next' = next + Len(s) /\ ev' = [e |-> "range", s |-> s]
Pop ==
  /\ S.n > 0 /\ S' = TakeTop(S) /\ ev' = [e |-> "pop", x |-> TopOf(S)] /\ UNCHANGED next
Top ==
  /\ S.n > 0 /\ S' = Found(S) /\ ev' = [e |-> "top", x |-> TopOf(S)] /\ UNCHANGED next
Replace(v) ==
  /\ S.n > 0 /\ v <= TopOf(S).v
  /\ S' = InsertOne(TakeTop(S), E(v)) /\ next' = next + 1
  /\ ev' = [e |-> "rep", x |-> TopOf(S), v |-> v]
Clear ==
  /\ S' = [S EXCEPT !.b = [i \in DOMAIN @ |-> [@[i] EXCEPT !.s = <<>>]], !.f = <<>>, !.max = 0, !.n = 0]
  /\ ev' = [e |-> "clear"] /\ UNCHANGED next

Next ==
  /\ UNCHANGED C
  /\ \/ next <= MaxPush /\ \E v \in Vals : Push(v) \/ Replace(v)
     \/ \E s \in Descending : PushRange(s)
     \/ Pop \/ Top \/ Clear
Spec == Init /\ [][Next]_vars
\* ev only says what the last step was
View == <<C, S, next>>

Sorted == \A i \in DOMAIN S.b : LET s == S.b[i].s IN
  /\ Len(s) <= S.b[i].c
  /\ \A k \in 1..(Len(s) - 1) : s[k].v < s[k + 1].v \/ (~Dedup /\ s[k].v = s[k + 1].v)
BackIsLast == \A i \in DOMAIN S.b : C.collect /\ ~Empty(S, i) => S.b[i].back = Last(S.b[i].s)
Counted == S.n = LET sum[i \in 0..Len(S.b)] == IF i = 0 THEN 0 ELSE sum[i - 1] + Len(S.b[i].s) IN sum[Len(S.b)]
FrontInOrder ==
  IF C.track
  THEN /\ RangeOf(S.f) = {i \in DOMAIN S.b : ~Empty(S, i)} /\ Cardinality(RangeOf(S.f)) = Len(S.f)
       /\ \A p \in 1..(Len(S.f) - 1) : Last(S.b[S.f[p]].s).v >= Last(S.b[S.f[p + 1]].s).v
  ELSE S.max # 0 => ~Empty(S, S.max) /\ \A e \in Entries : e.v <= Last(S.b[S.max].s).v
\* the largest bucket holds everything the buffers of its size are used for
Growing == \A i \in 1..(Len(S.b) - 1) : S.b[i + 1].c = C.base * S.b[i].c

RangeOk(s) ==
  LET new == {A!Entry(s[k], next + k - 1) : k \in DOMAIN s} IN
  A!MergesTo(Entries \cup new, Entries') /\ next' = next + Len(s)
Refines == [][
  CASE ev'.e = "push" -> A!Push(ev'.v)
    [] ev'.e = "range" -> RangeOk(ev'.s)
    [] ev'.e = "pop" -> A!Pop(ev'.x)
    [] ev'.e = "top" -> A!Look /\ A!Max(ev'.x, Entries')
    [] ev'.e = "rep" -> A!Replace(ev'.x, ev'.v)
    [] ev'.e = "clear" -> A!Clear
    [] OTHER -> FALSE]_vars
=============================================================================
