----------------------------- MODULE Simulator -----------------------------
(* The queue simulator (src/pqsim/Simulator): it makes up a history of pushes  *)
(* of runs and pops, puts every queue that it is given through exactly that    *)
(* history, as often as asked, ends the process when a queue gives a wrong     *)
(* value, and shows what it measured.                                          *)
EXTENDS Text, BigNat, TLC
VARIABLES
  kind, args,   \* how the history was made
  rep,          \* how often a queue goes through the history
  hist, known,  \* the history, once seen: each event a run to push, or <<>> for a pop
  inrun,        \* a queue is in the simulator
  done, bag,    \* events so far in this run; how often each value is in the queue
  ends,         \* after how many events the queue was empty
  bad,          \* the queue gave a wrong value
  cur,          \* the run going on: [name, cmps, mem, ms]
  rows          \* what was measured
svars == <<kind, args, rep, hist, known, inrun, done, bag, ends, bad, cur, rows>>

Descending(run) == run # <<>> /\ \A i \in 1..(Len(run) - 1) : run[i] > run[i + 1]
MaxOf(S) == CHOOSE v \in S : \A w \in S : w <= v
IsPop(e) == e = <<>>
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

\* adding a run to what is in a queue, where values may occur more than once
Add(b, run) == LET R == Range(run) IN
  [v \in DOMAIN b \cup R |-> (IF v \in DOMAIN b THEN b[v] ELSE 0) + (IF v \in R THEN 1 ELSE 0)]
Drop(b, v) == [w \in DOMAIN b \ {v} |-> b[w]]
NoBag == [v \in {} |-> 0]
Count(b) == LET d == SetToSeq(DOMAIN b) IN Sum([i \in 1..Len(d) |-> b[d[i]]])

-----------------------------------------------------------------------------
(* What a history of each kind is like *)
Sizes(h) == LET p == SelectSeq(h, LAMBDA e : ~IsPop(e)) IN [i \in 1..Len(p) |-> Len(p[i])]
AllSizes(h, ok(_, _)) == LET z == Sizes(h) IN \A i \in DOMAIN z : ok(i, z[i])
\* measures of a history
Measure(h) ==
  FoldLeft(LAMBDA a, e :
    LET n == a.n + Count(a.bag) IN
    IF IsPop(e) THEN [a EXCEPT !.n = n, !.bag = Drop(@, MaxOf(DOMAIN @))]
    ELSE [a EXCEPT !.n = n, !.bag = Add(@, e), !.runs = @ + 1, !.pushed = @ + Len(e),
                   !.dups = @ + Cardinality(Range(e) \cap DOMAIN a.bag)],
    [n |-> 0, bag |-> NoBag, runs |-> 0, pushed |-> 0, dups |-> 0], h)
\* dup GOAL RUN LIVE PERCENT: runs of about the size asked for until the goal is reached
DupLike(h, a) ==
  LET z == Sizes(h)
      dev == IF a[2] <= 10 THEN a[2] - 1 ELSE 10 IN
  /\ \A i \in DOMAIN z : z[i] \in (a[2] - dev)..(a[2] + dev)
  /\ Sum(z) >= a[1]
  /\ z # <<>> => Sum(z) - z[Len(z)] < a[1]
  /\ a[4] = 0 => Measure(h).dups = 0
\* order RUNS RUN LIVE
OrderLike(h, a) == LET z == Sizes(h) IN Len(z) = a[1] /\ \A i \in DOMAIN z : z[i] = a[2]
\* random RUNS RUN FIRST
RandomLike(h, a) == LET z == Sizes(h) IN Len(z) = a[1] /\ \A i \in DOMAIN z : z[i] = (IF i = 1 THEN a[3] ELSE a[2])
LikeAsked(h) ==
  CASE kind = "dup" -> DupLike(h, args)
    [] kind = "order" -> OrderLike(h, args)
    [] kind = "random" -> RandomLike(h, args)
    [] OTHER -> h = <<>>

-----------------------------------------------------------------------------
Idle == inrun' = FALSE /\ done' = <<>> /\ bag' = NoBag /\ ends' = {} /\ bad' = FALSE
New(n) == kind' = "none" /\ args' = <<>> /\ rep' = n /\ hist' = <<>> /\ known' = TRUE /\ Idle /\ cur' = <<>> /\ rows' = <<>>
Make(k, a) == ~inrun /\ kind' = k /\ args' = a /\ known' = FALSE /\ hist' = <<>> /\ UNCHANGED <<rep, cur, rows>> /\ Idle
\* ticks of a clock that counts millionths of a second
Run(name, cmps, mem, ticks) ==
  /\ ~inrun /\ inrun' = TRUE /\ done' = <<>> /\ bag' = NoBag /\ ends' = {0} /\ bad' = FALSE
  /\ cur' = [name |-> name, cmps |-> cmps, mem |-> mem, ms |-> BDrop(ticks, 1)]
  /\ UNCHANGED <<kind, args, rep, hist, known, rows>>
\* the event agrees with the history, where that is known
Agrees(e) == known => (hist # <<>> /\ e = hist[(Len(done) % Len(hist)) + 1] /\ Len(done) < rep * Len(hist))
Push(run) ==
  /\ inrun /\ ~bad /\ Descending(run) /\ Agrees(run)
  /\ done' = Append(done, run) /\ bag' = Add(bag, run)
  /\ UNCHANGED <<kind, args, rep, hist, known, inrun, ends, bad, cur, rows>>
\* r: what the queue answered
Pop(r) ==
  /\ inrun /\ ~bad /\ DOMAIN bag # {} /\ Agrees(<<>>)
  /\ LET m == MaxOf(DOMAIN bag) IN
       /\ bad' = (r # m) /\ bag' = Drop(bag, m) /\ done' = Append(done, <<>>)
       /\ ends' = IF DOMAIN bag = {m} THEN ends \cup {Len(done) + 1} ELSE ends
  /\ UNCHANGED <<kind, args, rep, hist, known, inrun, cur, rows>>
\* the history has been gone through rep times, and the queue was empty after each
RunEnd ==
  /\ inrun /\ ~bad /\ (Len(done) % rep) = 0
  /\ LET n == Len(done) \div rep
         h == SubSeq(done, 1, n) IN
     /\ \A k \in 0..rep : k * n \in ends
     /\ IF known THEN n = Len(hist)
        ELSE (\A i \in DOMAIN done : done[i] = h[((i - 1) % n) + 1]) /\ LikeAsked(h)
     /\ hist' = h /\ known' = TRUE
  /\ cur' = [cur EXCEPT !.ms = IF done = <<>> THEN <<>> ELSE @] \* the clock goes on in the first call
  /\ rows' = Append(rows, cur') /\ Idle
  /\ UNCHANGED <<kind, args, rep>>
\* the process ends, at once, when a wrong value has been given and only then
Exit(code) == inrun /\ bad /\ code = 1 /\ Idle /\ UNCHANGED <<kind, args, rep, hist, known, cur, rows>>
\* a queue that is right gets through
Real == ~inrun /\ UNCHANGED svars

-----------------------------------------------------------------------------
(* What is shown. Texts are lines of words; measurements are of any size and *)
(* have commas in them.                                                      *)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Digits3(n) == <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
Commas(b) == IF b = <<>> THEN <<48>> ELSE FoldRight(LAMBDA x, a : a \o <<44>> \o Digits3(x), SubSeq(b, 1, Len(b) - 1), Dec(b[Len(b)]))
\* the number of whole units of 1024
Kb(b) == BStrip(FoldRight(LAMBDA x, a : [q |-> <<(a.r * Base + x) \div 1024>> \o a.q, r |-> (a.r * Base + x) % 1024], b, [q |-> <<>>, r |-> 0]).q)
Row(r) == <<r.name, Commas(r.ms), Commas(r.cmps), Commas(Kb(r.mem))>>
\* after a run: name, ms, comparisons, kb
Told(out) ==
  LET r == Row(rows'[Len(rows')]) IN
  Len(out) = 1 /\ Len(out[1]) = 7 /\ out[1][1] = r[1] /\ out[1][2] = r[2] /\ out[1][4] = r[3] /\ out[1][6] = r[4]
\* the table: a title, the rows by time
Data(out) ==
  /\ ~inrun /\ Len(out) = Len(rows) + 1
  /\ \E p \in Permutations(1..Len(rows)) :
       /\ \A i \in 1..(Len(rows) - 1) : BLeq(rows[p[i]].ms, rows[p[i + 1]].ms)
       /\ \A i \in 1..Len(rows) : LET r == Row(rows[p[i]]) IN
            out[i + 1] = <<r[1], r[2] \o <<109, 115>>, r[3] \o <<99, 109, 112, 115>>, r[4] \o <<107, 98>> >>
  /\ UNCHANGED svars
\* every event: the run that is pushed or the value that is popped
Popped(h) == FoldLeft(LAMBDA a, e : IF IsPop(e) THEN LET m == MaxOf(DOMAIN a.bag) IN [bag |-> Drop(a.bag, m), out |-> Append(a.out, <<m>>)]
                                    ELSE [bag |-> Add(a.bag, e), out |-> Append(a.out, e)],
                      [bag |-> NoBag, out |-> <<>>], h).out
Insert == <<73, 110, 115, 101, 114, 116>>
PopWord == <<80, 111, 112>>
Events(out) ==
  /\ ~inrun
  /\ known => LET x == Popped(hist) IN
       /\ Len(out) = Len(hist) + 1
       /\ \A i \in DOMAIN hist : out[i + 1] = <<IF IsPop(hist[i]) THEN PopWord ELSE Insert>> \o [j \in 1..Len(x[i]) |-> Dec(x[i][j])]
  /\ UNCHANGED svars
\* runs, values per run, values in the queue, values, percentage of duplicates, repeats
Summary(out) ==
  /\ ~inrun
  /\ (known /\ kind # "none") => LET m == Measure(hist) IN
       /\ Len(out) = 7
       /\ out[2][1] = Dec(m.runs) /\ out[3][1] = Dec(IF m.runs = 0 THEN 0 ELSE m.pushed \div m.runs)
       /\ out[4][1] = Dec(IF hist = <<>> THEN 0 ELSE m.n \div Len(hist))
       /\ out[5][1] = Dec(m.pushed) /\ out[6][1] = Dec(IF m.pushed = 0 THEN 0 ELSE (100 * m.dups) \div m.pushed) \o <<37>>
       /\ out[7][1] = Dec(rep)
  /\ UNCHANGED svars

-----------------------------------------------------------------------------
(* A small world: every simulator whose histories have up to MaxEvents events. *)
CONSTANTS Values, MaxEvents, MaxRep
Runs == {r \in UNION {[1..n -> Values] : n \in 1..2} : Descending(r)}
Init == kind = "none" /\ args = <<>> /\ rep \in 1..MaxRep /\ hist = <<>> /\ known = TRUE /\ inrun = FALSE /\ done = <<>> /\ bag = NoBag
        /\ ends = {} /\ bad = FALSE /\ cur = <<>> /\ rows = <<>>
Next ==
  \/ Make("random", <<2, 1, 2>>) \/ Make("dup", <<3, 2, 1, 30>>)
  \/ Len(rows) < 2 /\ Run(<<65>>, <<1>>, <<1>>, <<1, 1>>)
  \/ Len(done) < MaxEvents /\ ((\E r \in Runs : Push(r)) \/ (\E v \in Values : Pop(v)))
  \/ RunEnd \/ Exit(1)
Spec == Init /\ [][Next]_svars
\* a history that is known empties the queue, never pops from an empty one, and is what was asked for
Sound == known => LET f == FoldLeft(LAMBDA a, e : IF IsPop(e) THEN (IF DOMAIN a.b = {} THEN [a EXCEPT !.ok = FALSE] ELSE [a EXCEPT !.b = Drop(@, MaxOf(DOMAIN @))])
                                                   ELSE [a EXCEPT !.b = Add(@, e)], [ok |-> TRUE, b |-> NoBag], hist) IN
                  f.ok /\ f.b = NoBag /\ (kind # "none" => LikeAsked(hist))
\* what a queue has gone through is a beginning of the history repeated
Same == (inrun /\ known) => \A i \in DOMAIN done : hist # <<>> /\ done[i] = hist[((i - 1) % Len(hist)) + 1]
\* only queues that gave no wrong value are in the table
NoBad == [][(rows' # rows) => ~bad]_svars
=============================================================================
