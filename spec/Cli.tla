-------------------------------- MODULE Cli ---------------------------------
(* Names and the command line. All texts are sequences of character codes.   *)
(* acts: the registered actions in order of registration,                    *)
(*   [name, direct (takes words before the options), short, desc,            *)
(*    pars: sequence of [name, kind, val, desc]], name "help" included when   *)
(*   it has been registered.                                                  *)
EXTENDS Text, TLC
VARIABLES
  names,  \* the set of names registered with the factory
  acts,   \* the registered actions
  help,   \* [pre, post] once the help action is registered
  par     \* one parameter on its own: [kind, val]
cvars == <<names, acts, help, par>>

T_on == <<111, 110>>
T_off == <<111, 102, 102>>
T_help == <<104, 101, 108, 112>>
MaxDoc == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>     \* 2^31 - 1, the documented end of the range
MaxType == <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>    \* 2^32 - 1, the largest value that can be held

-----------------------------------------------------------------------------
(* Names *)
WithPrefix(S, p) == {n \in S : StartsWith(n, p)}
Resolve(S, p) ==
  IF p \in S THEN [k |-> "ok", n |-> p]
  ELSE LET M == WithPrefix(S, p) IN
       CASE M = {} -> [k |-> "unknown", n |-> <<>>]
         [] Cardinality(M) = 1 -> [k |-> "ok", n |-> CHOOSE n \in M : TRUE]
         [] OTHER -> [k |-> "ambiguous", n |-> <<>>]
ToSortedSeq(S) == SetToSortSeq(S, LexLess)

Register(n) == n \notin names /\ names' = names \cup {n} /\ UNCHANGED <<acts, help, par>>
\* the name that a prefix stands for
ResolveName(p, k, n) == Resolve(names, p) = [k |-> k, n |-> n] /\ UNCHANGED cvars
\* creating by prefix: creates one product, the one registered under the resolved name, or nothing
CreateWithPrefix(p, k, n, made) ==
  LET r == Resolve(names, p) IN
  r = [k |-> k, n |-> n] /\ made = (IF r.k = "ok" THEN 1 ELSE 0) /\ UNCHANGED cvars
\* creating by exact name; k = "none" when nothing is returned
CreateExact(p, throws, k, n, made) ==
  /\ IF p \in names THEN k = "ok" /\ n = p /\ made = 1
     ELSE k = (IF throws THEN "unknown" ELSE "none") /\ made = 0
  /\ UNCHANGED cvars
ListNames(p, out) == out = ToSortedSeq(WithPrefix(names, p)) /\ UNCHANGED cvars
IsEmpty(r) == r = (names = {}) /\ UNCHANGED cvars

-----------------------------------------------------------------------------
(* Parameters *)
\* what an argument does: the new value, an error, or (maybe) either
Apply(kind, arg) ==
  CASE kind = "bool" -> IF arg = <<>> \/ arg = T_on THEN [k |-> "ok", v |-> T_on]
                        ELSE IF arg = T_off THEN [k |-> "ok", v |-> T_off] ELSE [k |-> "error", v |-> <<>>]
    [] kind = "int" -> IF ~Canonical(arg) \/ ~DecLeq(arg, MaxType) THEN [k |-> "error", v |-> <<>>]
                       ELSE IF DecLeq(arg, MaxDoc) THEN [k |-> "ok", v |-> arg] ELSE [k |-> "maybe", v |-> arg]
    [] OTHER -> [k |-> "ok", v |-> arg]

NewPar(kind, v) == par' = [kind |-> kind, val |-> v] /\ UNCHANGED <<names, acts, help>>
Argument(arg, k, v) ==
  LET a == Apply(par.kind, arg) IN
  /\ \/ a.k \in {"ok", "maybe"} /\ k = "ok" /\ v = a.v /\ par' = [par EXCEPT !.val = v]
     \/ a.k \in {"error", "maybe"} /\ k = "error" /\ v = par.val /\ UNCHANGED par   \* a rejected argument changes nothing
  /\ UNCHANGED <<names, acts, help>>
SetValue(v) == par' = [par EXCEPT !.val = v] /\ UNCHANGED <<names, acts, help>>
GetValue(v) == v = par.val /\ UNCHANGED cvars

-----------------------------------------------------------------------------
(* Command lines *)
ActNames == {acts[i].name : i \in DOMAIN acts}
ActNamed(n) == acts[CHOOSE i \in DOMAIN acts : acts[i].name = n]
NoWords == <<>>

RegisterAction(a) == a.name \notin ActNames /\ acts' = Append(acts, a) /\ UNCHANGED <<names, help, par>>
RegisterHelp(pre, post) ==
  /\ T_help \notin ActNames
  /\ acts' = Append(acts, [name |-> T_help, direct |-> TRUE, short |-> <<>>, desc |-> <<>>, pars |-> <<>>])
  /\ help' = [pre |-> pre, post |-> post] /\ UNCHANGED <<names, par>>

IsOption(w) == w # <<>> /\ w[1] = DASH

\* the options of a command line, one after the other: values so far, errors met, values that may be refused
RECURSIVE Walk(_, _, _, _, _, _)
Walk(pars, opts, i, vals, errs, maybe) ==
  IF i > Len(opts) THEN [vals |-> vals, errs |-> errs, maybe |-> maybe]
  ELSE IF ~IsOption(opts[i]) THEN Walk(pars, opts, i + 1, vals, errs \cup {"error"}, maybe)
  ELSE LET r == Resolve({pars[j].name : j \in DOMAIN pars}, Tail(opts[i]))
           hasArg == i + 1 <= Len(opts) /\ ~IsOption(opts[i + 1])
           arg == IF hasArg THEN opts[i + 1] ELSE <<>>
           next == IF hasArg THEN i + 2 ELSE i + 1 IN
       IF r.k # "ok" THEN Walk(pars, opts, next, vals, errs \cup {r.k}, maybe)
       ELSE LET j == CHOOSE j \in DOMAIN pars : pars[j].name = r.n
                a == Apply(pars[j].kind, arg) IN
            CASE a.k = "error" -> Walk(pars, opts, next, vals, errs \cup {"error"}, maybe)
              [] a.k = "ok" -> Walk(pars, opts, next, [vals EXCEPT ![j] = a.v], errs, maybe)
              [] OTHER -> Walk(pars, opts, next, [vals EXCEPT ![j] = a.v], errs, TRUE)

\* what a command line means: [errs, maybe, act, direct, vals]
Meaning(words) ==
  LET none == [errs |-> {"unknown"}, maybe |-> FALSE, act |-> <<>>, direct |-> <<>>, vals |-> <<>>] IN
  IF words = <<>> THEN none
  ELSE LET r == Resolve(ActNames, words[1]) IN
       IF r.k # "ok" THEN [none EXCEPT !.errs = {r.k}]
       ELSE LET a == ActNamed(r.n)
                rest == SelectSeq(Tail(words), LAMBDA w : w # <<>>)
                firsts == {i \in DOMAIN rest : IsOption(rest[i])}
                cut == IF firsts = {} THEN Len(rest) + 1 ELSE CHOOSE i \in firsts : \A j \in firsts : i <= j
                direct == SubSeq(rest, 1, cut - 1)
                opts == SubSeq(rest, cut, Len(rest))
                w == Walk(a.pars, opts, 1, [j \in DOMAIN a.pars |-> a.pars[j].val], {}, FALSE)
                derr == IF direct # <<>> /\ ~a.direct THEN {"error"}
                        ELSE IF a.name = T_help /\ Len(direct) > 1 THEN {"error"} ELSE {} IN
            [errs |-> w.errs \cup derr, maybe |-> w.maybe, act |-> a.name, direct |-> direct, vals |-> w.vals]

Parse(words, k, act, direct, vals) ==
  LET m == Meaning(words) IN
  /\ \/ m.errs = {} /\ k = "ok" /\ act = m.act /\ vals = m.vals
        /\ (m.act = T_help \/ ~ActNamed(m.act).direct \/ direct = m.direct)
     \/ (m.errs # {} \/ m.maybe) /\ k \in m.errs \cup (IF m.maybe THEN {"error"} ELSE {})
  /\ UNCHANGED cvars

ActionNames(out) == out = ToSortedSeq(ActNames) /\ UNCHANGED cvars
\* an action asked for by name alone
CreateAction(p, k, n) == Resolve(ActNames, p) = [k |-> k, n |-> n] /\ UNCHANGED cvars

-----------------------------------------------------------------------------
(* Help: the words shown, in order *)
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
HelpShort == <<82,101,116,117,114,110,32,105,110,102,111,114,109,97,116,105,111,110,32,97,98,111,117,116,32,116,104,101,32,99,111,109,109,97,110,100,32,108,105,110,101,32,105,110,116,101,114,102,97,99,101,46>>
TypeOf(kind) == CASE kind = "bool" -> <<91,66,79,79,76,93>> [] kind = "int" -> <<73,78,84,69,71,69,82>> [] OTHER -> <<83,84,82,73,78,71>>
ShortOf(a) == IF a.name = T_help THEN HelpShort ELSE a.short
ListWords ==
  Words(help.pre) \o Concat([i \in 1..Len(acts) |-> LET n == ToSortedSeq(ActNames)[i] IN
                               Words(n) \o <<(<<DASH>>)>> \o Words(ShortOf(ActNamed(n)))])
  \o Words(help.post)
\* what is shown for one action: its name, its description and each parameter by name with type, default and description
ParSeq(a) == LET ns == ToSortedSeq({a.pars[j].name : j \in DOMAIN a.pars}) IN
  [i \in DOMAIN ns |-> a.pars[CHOOSE j \in DOMAIN a.pars : a.pars[j].name = ns[i]]]
T_info == Words(<<68,105,115,112,108,97,121,105,110,103,32,105,110,102,111,114,109,97,116,105,111,110,32,111,110,32,97,99,116,105,111,110,58>>)
T_params == Words(<<84,104,101,32,112,97,114,97,109,101,116,101,114,115,32,97,99,99,101,112,116,101,100,32,98,121>>)
T_follow == Words(<<97,114,101,32,97,115,32,102,111,108,108,111,119,115,46>>)
T_default == Words(<<40,100,101,102,97,117,108,116,32,105,115>>)
ParWords(p) == Words(<<DASH>> \o p.name) \o Words(TypeOf(p.kind)) \o T_default \o Words(p.val \o <<41>>) \o Words(p.desc)
ActionWords(a) ==
  T_info \o Words(a.name) \o Words(a.desc)
  \o (IF a.pars = <<>> THEN <<>>
      ELSE T_params \o Words(a.name) \o T_follow \o Concat([i \in DOMAIN a.pars |-> ParWords(ParSeq(a)[i])]))

\* topics: the words after "help"
ShowHelp(topics, k, out) ==
  LET ts == SelectSeq(topics, LAMBDA w : w # <<>>)
      r == Resolve(ActNames, ts[1]) IN
  /\ CASE Len(ts) > 1 -> k = "error"
       [] ts = <<>> -> k = "ok" /\ Words(out) = ListWords
       [] OTHER -> k = r.k /\ (r.k = "ok" /\ r.n # T_help => Words(out) = ActionWords(ActNamed(r.n)))
                           /\ (r.k = "ok" /\ r.n = T_help => StartsWith(Words(out), T_info \o <<T_help>>))
  /\ UNCHANGED cvars

CInit == names = {} /\ acts = <<>> /\ help = [pre |-> <<>>, post |-> <<>>] /\ par = [kind |-> "string", val |-> <<>>]
=============================================================================
