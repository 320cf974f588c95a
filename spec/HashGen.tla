------------------------------- MODULE HashGen -------------------------------
(* Every transition of HashImpl between states that differ in the keys and    *)
(* values in the chains, as an operation script: the shortest way there and   *)
(* then the call. Entries are named by their keys.                            *)
EXTENDS HashImpl
VARIABLE hist
CONSTANTS Mod, Fn
GenInit == Init /\ mod = Mod /\ fn = Fn /\ hist = ""
S(x) == " " \o ToString(x)
Op(e) ==
  CASE e.e = "ins" -> "i" \o S(e.k) \o S(e.v)
    [] e.e = "find" -> "f" \o S(e.k)
    [] e.e = "rem" -> "X" \o S(e.n.k)
    [] e.e = "set" -> "S" \o S(e.n.k) \o S(e.v)
    [] e.e = "hard" -> "H"
\* an emptied table may be reset
GenReset == count = 0 /\ hist' = hist \o "Z 0;" /\ UNCHANGED vars
GenStep == ((Next /\ hist' = hist \o Op(ev') \o ";") \/ GenReset) /\ PrintT(<<"SCRIPT", hist'>>)
GenSpec == GenInit /\ [][GenStep]_<<vars, hist>>
GenView == <<[b \in DOMAIN t |-> [i \in DOMAIN t[b] |-> <<t[b][i].k, t[b][i].v>>]], bits>>
==============================================================================
