----------------------------- MODULE SpanTrace -----------------------------
EXTENDS SpanQueue, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
E == Trace[l]
TraceInit == l = 1 /\ Init
TraceNext ==
  \/ IsEvent("begin") /\ New
  \/ IsEvent("push") /\ Push(E.vs)
  \/ IsEvent("pop") /\ Pop(E.r)
  \/ IsEvent("empty") /\ Empty(E.r)
TraceSpec == TraceInit /\ [][TraceNext]_<<live, l>>
TraceView == <<l, live>>
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  \/ d - 1 = Len(Trace)
  \/ PrintT(<<"REJECT", d, Len(Trace)>>) /\ FALSE
=============================================================================
