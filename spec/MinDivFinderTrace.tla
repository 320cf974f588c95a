--------------------------- MODULE MinDivFinderTrace ---------------------------
(* Checks traces recorded from the real divsim models:  each recorded call *)
(* must be a DivFinder action with exactly the recorded results.            *)
EXTENDS MinDivFinder, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
E == Trace[l]

TraceInit ==
  /\ l = 1
  /\ store = Empty
  /\ opts = [leaf |-> 0, sorted |-> FALSE, list |-> TRUE, rem |-> TRUE, ord |-> 0]
  /\ mini = FALSE /\ ever = {}

Same == UNCHANGED <<mini, ever>>
TraceNext ==
  \/ IsEvent("begin") /\ MinNew([leaf |-> E.leaf, sorted |-> E.sorted, list |-> E.list, rem |-> E.rem, ord |-> 0], E.mini)
  \/ IsEvent("mins") /\ MinInsert(E.id, E.m, E.tells, E.out) /\ HoldsMinimal'
  \/ IsEvent("insfail") /\ MinInsertRefused(E.id, E.m)
  \/ IsEvent("div") /\ FindDivisor(E.m, E.r) /\ Same
  \/ IsEvent("alldiv") /\ AllDivisors(E.m, E.lim, E.out) /\ Same
  \/ IsEvent("all") /\ All(E.lim, E.out) /\ Same
  \/ IsEvent("size") /\ Size(E.n, E.empty) /\ Same
  \/ IsEvent("iter") /\ Iterate(E.out) /\ Same

TraceSpec == TraceInit /\ [][TraceNext]_<<mvars, l>>
TraceView == <<l, Live, mini>>

TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  \/ d - 1 = Len(Trace)
  \/ PrintT(<<"REJECT", d, Len(Trace)>>) /\ FALSE
=============================================================================
