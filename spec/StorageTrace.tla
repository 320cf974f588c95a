---------------------------- MODULE StorageTrace ----------------------------
(* Checks the blocks of memory that real structures took and gave back.     *)
EXTENDS Storage, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

TraceInit == form = Nothing /\ owner = Nothing /\ cur = 0 /\ l = 1
TraceNext ==
  \/ IsEvent("begin") /\ form' = Nothing /\ owner' = Nothing /\ cur' = 0
  \/ IsEvent("call") /\ Call(E.s)
  \/ IsEvent("take") /\ Take(E.b, E.f)
  \/ IsEvent("give") /\ Give(E.b, E.f)
  \/ IsEvent("moved") /\ Moved(E.s, E.f, {})   \* the other one is destroyed next
  \/ IsEvent("destroyed") /\ Destroyed(E.s)
  \/ IsEvent("end") /\ End(E.left)
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, l>>
TraceView == <<l, Cardinality(Used)>>
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  \/ d - 1 = Len(Trace)
  \/ PrintT(<<"REJECT", d, Len(Trace)>>) /\ FALSE
=============================================================================
