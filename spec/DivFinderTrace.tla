--------------------------- MODULE DivFinderTrace ---------------------------
(* Checks traces recorded from the real divisor finders: each recorded call *)
(* must be a DivFinder action with exactly the recorded results.            *)
EXTENDS DivFinder, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
E == Trace[l]

TraceInit ==
  /\ l = 1
  /\ store = Empty
  /\ opts = [leaf |-> 0, sorted |-> FALSE, list |-> TRUE, rem |-> TRUE, ord |-> 0]

TraceNext ==
  \/ IsEvent("begin") /\ New([leaf |-> E.leaf, sorted |-> E.sorted, list |-> E.list, rem |-> E.rem, ord |-> E.ord])
  \/ IsEvent("ins") /\ Insert(E.id, E.m)
  \/ IsEvent("insfail") /\ InsertRefused(E.id, E.m)
  \/ IsEvent("insr") /\ InsertRange(E.ids, E.ms)
  \/ IsEvent("insrfail") /\ InsertRangeRefused(E.ids, E.ms, E.size)
  \/ IsEvent("div") /\ FindDivisor(E.m, E.r)
  \/ IsEvent("alldiv") /\ AllDivisors(E.m, E.lim, E.out)
  \/ IsEvent("allmul") /\ AllMultiples(E.m, E.lim, E.out)
  \/ IsEvent("all") /\ All(E.lim, E.out)
  \/ IsEvent("rmul") /\ RemoveMultiples(E.m, E.r, E.out)
  \/ IsEvent("rmulq") /\ RemoveMultiplesQuiet(E.m, E.r)
  \/ IsEvent("rel") /\ RemoveElement(E.m, E.r, E.left)
  \/ IsEvent("refused") /\ RemovalRefused(E.r, E.out)
  \/ IsEvent("size") /\ Size(E.n, E.empty)
  \/ IsEvent("iter") /\ Iterate(E.out)
  \/ IsEvent("mtf") /\ MoveDivisorToFront(E.m, E.id, E.first)
  \/ IsEvent("mtfk") /\ MoveToFront(E.id, E.first)
  \/ IsEvent("relabel") /\ Relabel(E.k, E.m, E.lim, E.out, E.now)
  \/ IsEvent("rebuild") /\ Rebuild
  \/ IsEvent("clear") /\ Clear
  \/ IsEvent("gone") /\ E.live = 0 /\ UNCHANGED dfvars

TraceSpec == TraceInit /\ [][TraceNext]_<<dfvars, l>>
TraceView == <<l, Live>>

TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  \/ d - 1 = Len(Trace)
  \/ PrintT(<<"REJECT", d, Len(Trace)>>) /\ FALSE
=============================================================================
