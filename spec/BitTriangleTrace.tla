-------------------------- MODULE BitTriangleTrace --------------------------
EXTENDS BitTriangle, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
E == Trace[l]
TraceInit == l = 1 /\ cols = 0 /\ ones = {}
TraceNext ==
  \/ IsEvent("begin") /\ New
  \/ IsEvent("col") /\ AddColumn
  \/ IsEvent("set") /\ SetBit(E.c, E.r, E.v)
  \/ IsEvent("setu") /\ SetBitUnordered(E.c, E.r, E.v)
  \/ IsEvent("bit") /\ Bit(E.c, E.r, E.v)
  \/ IsEvent("bitu") /\ BitUnordered(E.c, E.r, E.v)
  \/ IsEvent("count") /\ Count(E.n, E.empty)
  \/ IsEvent("all") /\ ReadAll(E.ord, E.low, E.high)
TraceSpec == TraceInit /\ [][TraceNext]_<<bvars, l>>
TraceView == <<l, ones>>
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  \/ d - 1 = Len(Trace)
  \/ PrintT(<<"REJECT", d, Len(Trace)>>) /\ FALSE
=============================================================================
