---------------------------- MODULE DivFinderGen ----------------------------
(* Behaviours of DivFinder written out as operation scripts for the real    *)
(* structures. The history is a text, one operation per ';'.                *)
EXTENDS DivFinder, TLCExt
CONSTANTS Depth, Muts
VARIABLES hist, n, nextid

RECURSIVE ToText(_, _)
ToText(m, v) == IF v > Len(m) THEN "" ELSE " " \o ToString(m[v]) \o ToText(m, v + 1)

Log(op) == hist' = hist \o op \o ";" /\ n' = n + 1

RECURSIVE Entries(_, _, _)
Entries(ms, id, k) == IF k > Len(ms) THEN "" ELSE " " \o ToString(id + k - 1) \o ToText(ms[k], 1) \o Entries(ms, id, k + 1)
Ranges == {<<>>} \cup [1..2 -> Mons] \cup [1..3 -> Mons]

GenInit == store = Empty /\ opts = [leaf |-> 2, sorted |-> FALSE, list |-> TRUE, rem |-> TRUE, ord |-> 0]
           /\ hist = "" /\ n = 0 /\ nextid = 1

Do(k) == k \in Muts

GenStep ==
  /\ n < Depth
  /\ \/ Do("I") /\ \E m \in Mons : Insert(nextid, m) /\ nextid' = nextid + 1 /\ Log("I " \o ToString(nextid) \o ToText(m, 1))
     \/ Do("R") /\ \E ms \in Ranges :
          LET ids == [k \in 1..Len(ms) |-> nextid + k - 1] IN
          /\ InsertRange(ids, ms) /\ nextid' = nextid + Len(ms)
          /\ Log((IF Len(ms) = 2 THEN "r " ELSE "R ") \o ToString(Len(ms)) \o Entries(ms, nextid, 1))
     \/ /\ nextid' = nextid
        /\ \/ Do("X") /\ Live # {} /\ \E q \in Mons : RemoveMultiplesQuiet(q, Multiples(q) # {}) /\ Log("X" \o ToText(q, 1))
           \/ Do("E") /\ Live # {} /\ \E q \in Mons : Equals(q) # {} /\ (LET i == CHOOSE j \in Equals(q) : TRUE IN store' = Without({i}))
                            /\ UNCHANGED opts /\ Log("E" \o ToText(q, 1))
           \/ Do("D") /\ Live # {} /\ \E q \in Mons : UNCHANGED dfvars /\ Log("D" \o ToText(q, 1))
           \/ Do("W") /\ \E q \in Mons : Divisors(q) # {} /\ UNCHANGED dfvars /\ Log("W" \o ToText(q, 1))
           \/ Do("B") /\ Live # {} /\ Rebuild /\ Log("B")
           \/ Do("C") /\ Live # {} /\ Clear /\ Log("C")
  /\ IF n' = Depth THEN PrintT(<<"SCRIPT", hist'>>) ELSE TRUE

GenSpec == GenInit /\ [][GenStep]_<<dfvars, hist, n, nextid>>
GenView == hist
=============================================================================
