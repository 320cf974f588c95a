---------------------------- MODULE DivMaskTrace ----------------------------
EXTENDS DivMask, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
E == Trace[l]
TraceInit == l = 1 /\ MInit
TraceNext ==
  \/ IsEvent("begin") /\ New
  \/ IsEvent("calc") /\ Rebuild(E.ms)
  \/ IsEvent("mask") /\ Compute(E.s, E.m)
  \/ IsEvent("reset") /\ Reset(E.s)
  \/ IsEvent("lower") /\ Lower(E.s, E.t)
  \/ IsEvent("copy") /\ Copy(E.s, E.t)
  \/ IsEvent("can") /\ Compare(E.s, E.t, E.r)
  \/ IsEvent("eq") /\ Equal(E.s, E.t, E.r)
  \/ IsEvent("ext") /\ ExtDivides(E.s, E.t, E.r)
  \/ IsEvent("row") /\ Row(E.s, E.ms, E.can, E.eq, E.div)
TraceSpec == TraceInit /\ [][TraceNext]_<<mvars, l>>
TraceView == <<l, slots>>
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  \/ d - 1 = Len(Trace)
  \/ PrintT(<<"REJECT", d, Len(Trace)>>) /\ FALSE
=============================================================================
