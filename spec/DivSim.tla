------------------------------- MODULE DivSim -------------------------------
(* The divisor simulation (src/divsim/Simulation): a history of insertions and *)
(* then queries, decided by the parameters alone, that every finder goes       *)
(* through as often as asked. The first answer to each call is remembered; the *)
(* process ends as soon as an answer differs from the one remembered.          *)
(* An answer is how many elements were reported or, for a query for a single   *)
(* divisor, whether there is one (1) or not (0).                               *)
EXTENDS Simulator
VARIABLES
  par,    \* [nv, ins, qs, all]
  monos,  \* the monomials seen so far, in order
  ans,    \* the answers remembered so far
  tell,   \* every result is also written out at once
  left    \* the run going on: how many calls have been made, or -1 when none is going on
dvars == <<svars, par, monos, ans, tell, left>>
None == [nv |-> 0, ins |-> 0, qs |-> 0, all |-> FALSE]
Total == par.ins + par.qs
DNew(n, t) == New(n) /\ par' = None /\ monos' = <<>> /\ ans' = <<>> /\ tell' = t /\ left' = -1
\* the same parameters give the same history
DMake(p) ==
  /\ left = -1 /\ par' = p /\ monos' = (IF p.nv = par.nv /\ p.ins = par.ins /\ p.qs = par.qs THEN monos ELSE <<>>) /\ ans' = <<>>
  /\ UNCHANGED <<svars, tell, left>>
DRun(name, ticks, queries, size) ==
  /\ left = -1 /\ left' = 0 /\ bad' = FALSE
  /\ cur' = [name |-> name, ms |-> IF Total = 0 THEN <<>> ELSE BDrop(BAdd(ticks, <<500>>), 1), eqs |-> queries, size |-> size]
  /\ UNCHANGED <<kind, args, rep, hist, known, inrun, done, bag, ends, rows, par, monos, ans, tell>>
Place == (left % Total) + 1
Call(m, n, here) ==
  /\ left >= 0 /\ ~bad /\ left < rep * Total /\ here
  /\ Len(m) = par.nv /\ \A i \in DOMAIN m : m[i] >= 0
  /\ IF Place <= Len(monos) THEN m = monos[Place] /\ monos' = monos ELSE Place = Len(monos) + 1 /\ monos' = Append(monos, m)
  /\ IF Place <= Len(ans) THEN bad' = (n # ans[Place]) /\ ans' = ans ELSE bad' = FALSE /\ ans' = Append(ans, n)
  /\ left' = left + 1
  /\ UNCHANGED <<kind, args, rep, hist, known, inrun, done, bag, ends, cur, rows, par, tell>>
Insertion(m, n) == Call(m, n, Place <= par.ins)
QueryOne(m, r) == Call(m, IF r THEN 1 ELSE 0, Place > par.ins /\ ~par.all)
QueryMany(m, n) == Call(m, n, Place > par.ins /\ par.all)
DRow(r) == <<r.name, Commas(r.ms), Commas(r.eqs)>>
DRunEnd(out, err) ==
  /\ left >= 0 /\ ~bad /\ left = rep * Total /\ left' = -1
  /\ out = << <<Dec(cur.size)>> >>
  /\ IF tell THEN Len(err) = 1 /\ Len(err[1]) = 5 /\ <<err[1][1], err[1][2], err[1][4]>> = DRow(cur) ELSE err = <<>>
  /\ rows' = Append(rows, cur)
  /\ UNCHANGED <<kind, args, rep, hist, known, inrun, done, bag, ends, bad, cur, par, monos, ans, tell>>
DExit(code) == left >= 0 /\ bad /\ code = 1 /\ left' = -1 /\ UNCHANGED <<svars, par, monos, ans, tell>>
DReal == left = -1 /\ UNCHANGED dvars
\* the table: a title with the repeats, the heads of the columns if any, the rows by time
DData(out) ==
  /\ left = -1 /\ Len(out) = Len(rows) + 1
  /\ \E p \in Permutations(1..Len(rows)) :
       /\ \A i \in 1..(Len(rows) - 1) : BLeq(rows[p[i]].ms, rows[p[i + 1]].ms)
       /\ \A i \in 1..Len(rows) : LET r == DRow(rows[p[i]]) IN
            out[i + 1] = <<r[1], r[2] \o <<109, 115>>, r[3] \o <<101, 113, 115>> >>
  /\ \E i \in DOMAIN out[1] : out[1][i] = Dec(rep)
  /\ UNCHANGED dvars

-----------------------------------------------------------------------------
DInit == Init /\ par = None /\ monos = <<>> /\ ans = <<>> /\ tell = FALSE /\ left = -1
DNext ==
  \/ \E i, q \in 0..2, a \in BOOLEAN : DMake([nv |-> 1, ins |-> i, qs |-> q, all |-> a])
  \/ Len(rows) < 2 /\ DRun(<<65>>, <<0, 1>>, <<1>>, 1)
  \/ \E m \in Values, n \in 0..1 : Insertion(<<m>>, n) \/ QueryOne(<<m>>, n = 1) \/ QueryMany(<<m>>, n)
  \/ DRunEnd(<< <<Dec(cur.size)>> >>, <<>>) \/ DExit(1)
DSpec == DInit /\ [][DNext]_dvars
\* a run that is over went through everything; a finder in the table never contradicted what is remembered
Whole == [][rows' # rows => (left = rep * Total /\ ~bad /\ Len(ans) = Total)]_dvars
Steady == [][(left >= 0 /\ left' >= 0) => SubSeq(ans', 1, Len(ans)) = ans /\ SubSeq(monos', 1, Len(monos)) = monos]_dvars
InStep == left >= 0 => Len(ans) <= Total /\ Len(monos) <= Total /\ (left <= Total => Len(ans) >= left)
=============================================================================
