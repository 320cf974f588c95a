------------------------------ MODULE CliModel ------------------------------
(* All command lines up to a length over a small vocabulary, for a small     *)
(* program; checks that the meaning of a command line is what the            *)
(* properties say and prints every command line as a script.                 *)
EXTENDS Cli
CONSTANTS Depth, Emit
VARIABLE idx   \* the command line as indexes into Vocabulary
mvars == <<cvars, idx>>

\* a = 97, b = 98
P(n, k, v) == [name |-> n, kind |-> k, val |-> v, desc |-> <<100>>]
Prog == << [name |-> <<97>>, direct |-> TRUE, short |-> <<115>>, desc |-> <<100>>,
            pars |-> <<P(<<97>>, "bool", T_off), P(<<97, 98>>, "string", <<100>>)>>],
           [name |-> <<97, 98>>, direct |-> FALSE, short |-> <<115>>, desc |-> <<100>>,
            pars |-> <<P(<<97, 97>>, "int", <<55>>), P(<<97, 98>>, "bool", T_on)>>],
           [name |-> <<98, 98>>, direct |-> FALSE, short |-> <<115>>, desc |-> <<100>>,
            pars |-> <<P(<<98>>, "string", <<>>)>>] >>
\* "" a ab b aa -a -ab -b - 5 off on -c
Vocabulary == << <<>>, <<97>>, <<97, 98>>, <<98>>, <<97, 97>>, <<45, 97>>, <<45, 97, 98>>, <<45, 98>>, <<45>>, <<53>>, T_off, T_on, <<45, 99>> >>
Line(x) == [i \in 1..Len(x) |-> Vocabulary[x[i]]]

MInit == names = {<<97>>, <<97, 98>>, <<98, 98>>} /\ acts = Prog /\ help = [pre |-> <<>>, post |-> <<>>]
         /\ par = [kind |-> "string", val |-> <<>>] /\ idx = <<>>
MStep == /\ Len(idx) < Depth
         /\ \E v \in DOMAIN Vocabulary : idx' = Append(idx, v)
         /\ UNCHANGED cvars
         /\ (Emit => PrintT(<<"LINE", idx'>>))
MSpec == MInit /\ [][MStep]_mvars

M(x) == Meaning(Line(x))
\* the first word decides the action: an exact name wins, otherwise the only name it begins
ActionRight ==
  idx = <<>> \/ LET w == Line(idx)[1]
                    m == M(idx) IN
    IF w \in ActNames THEN m.act = w
    ELSE (m.act # <<>> => StartsWith(m.act, w) /\ \A n \in ActNames : StartsWith(n, w) => n = m.act)
\* an option not mentioned keeps its default
DefaultsKept ==
  LET m == M(idx) IN
  m.act # <<>> => LET a == ActNamed(m.act) IN
    \A j \in DOMAIN a.pars :
      (\A i \in 2..Len(idx) : LET w == Line(idx)[i] IN IsOption(w) => ~StartsWith(a.pars[j].name, Tail(w)))
        => m.vals[j] = a.pars[j].val
\* empty words after the first do not matter
EmptyIgnored ==
  idx = <<>> \/ M(idx) = M(<<idx[1]>> \o SelectSeq(Tail(idx), LAMBDA v : v # 1))
\* a correct line followed by an option and its argument sets that one option and nothing else
LastWins ==
  \A o \in {6, 7, 8} : \A v \in {10, 11} :
    LET m == M(idx)
        n == M(idx \o <<o, v>>) IN
    (m.errs = {} /\ n.errs = {}) =>
      LET a == ActNamed(m.act)
          r == Resolve({a.pars[j].name : j \in DOMAIN a.pars}, Tail(Vocabulary[o])) IN
      \A j \in DOMAIN a.pars : n.vals[j] = (IF a.pars[j].name = r.n THEN Apply(a.pars[j].kind, Vocabulary[v]).v ELSE m.vals[j])
\* the words before the first option are handed over in order
DirectKept ==
  LET m == M(idx) IN
  (m.errs = {} /\ ActNamed(m.act).direct) =>
    m.direct = (LET ws == SelectSeq(Tail(Line(idx)), LAMBDA w : w # <<>>)
                    k == CHOOSE k \in 0..Len(ws) : (\A i \in 1..k : ~IsOption(ws[i])) /\ (k = Len(ws) \/ IsOption(ws[k + 1])) IN
                SubSeq(ws, 1, k))
\* Names: resolving is by exact match or by unique prefix
NamesRight ==
  \A x \in DOMAIN Vocabulary :
    LET p == Vocabulary[x]
        r == Resolve(names, p) IN
    /\ r.k = "ok" => r.n \in names /\ StartsWith(r.n, p) /\ (p \in names => r.n = p)
    /\ r.k = "unknown" <=> WithPrefix(names, p) = {}
    /\ r.k = "ambiguous" => p \notin names /\ Cardinality(WithPrefix(names, p)) > 1
    /\ \A i, j \in DOMAIN ToSortedSeq(WithPrefix(names, p)) : i < j => LexLess(ToSortedSeq(WithPrefix(names, p))[i], ToSortedSeq(WithPrefix(names, p))[j])
=============================================================================
