--------------------------------- MODULE KDGen ---------------------------------
(* Every transition of KDImpl between states that differ in the tree, the     *)
(* monomials in its leaves, the remembered divisor and the counter, as an     *)
(* operation script: the shortest way there and then the call.                *)
EXTENDS KDImpl, TLCExt
CONSTANTS LeafSize, Auto
VARIABLE hist

GenInit == Init /\ C.leaf = LeafSize /\ C.auto = Auto /\ C.min = 1 /\ hist = ""
Str(m) == " " \o ToString(m[1]) \o " " \o ToString(m[2])
Op(e) ==
  CASE e.e \in {"ins", "refused"} -> "I " \o ToString(next) \o Str(e.m)
    [] e.e = "rem" -> "X" \o Str(e.q) [] e.e = "one" -> "E" \o Str(e.q) [] e.e = "find" -> "D" \o Str(e.q)
    [] e.e = "rebuild" -> "B" [] e.e = "clear" -> "C"
GenStep == Next /\ hist' = hist \o Op(ev') \o ";" /\ PrintT(<<"SCRIPT", hist'>>)
GenSpec == GenInit /\ [][GenStep]_<<vars, hist>>

RECURSIVE Shape(_)
Shape(n) == IF IsNone(n) THEN <<>> ELSE IF n.leaf THEN <<1, [k \in DOMAIN n.es |-> n.es[k].m]>>
            ELSE <<2, n.var, n.exp, Shape(n.lo), Shape(n.hi)>>
Remembered == IF cache = 0 THEN 0 ELSE CHOOSE k \in 1..size : Flat(root)[k].id = cache
GenView == <<Shape(root), Remembered, till>>
CONSTANT MaxLevel
Shallow == TLCGet("level") <= MaxLevel
OneCalc == {ByDefault}
==============================================================================
