------------------------------ MODULE PQTrace ------------------------------
(* Checks traces recorded from the real priority queues against PQ.        *)
EXTENDS PQ, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
E == Trace[l]

TraceInit == l = 1 /\ live = None /\ dedup = FALSE /\ shown = 0 /\ out = {} /\ pushed = {}

TraceNext ==
  \/ IsEvent("begin") /\ New(E.dedup)
  \/ IsEvent("push") /\ Push(E.h, E.v)
  \/ IsEvent("pushr") /\ PushRange(E.hs, E.vs)
  \/ IsEvent("merge") /\ Merge(E.a, E.b, E.c, E.va, E.vb)
  \/ IsEvent("top") /\ Top(E.h, E.v)
  \/ IsEvent("pop") /\ Pop(E.h, E.v)
  \/ IsEvent("dec") /\ DecreaseTop(E.t, E.h, E.v)
  \/ IsEvent("empty") /\ Empty(E.r)
  \/ IsEvent("size") /\ Size(E.n)
  \/ IsEvent("all") /\ VisitAll(E.lim, E.hs, E.vs)
  \/ IsEvent("clear") /\ Clear
  \/ IsEvent("move") /\ Move
  \/ IsEvent("gone") /\ E.live = 0 /\ Conserved /\ UNCHANGED pqvars

TraceSpec == TraceInit /\ [][TraceNext]_<<pqvars, l>>
TraceView == <<l, live>>

TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  \/ d - 1 = Len(Trace)
  \/ PrintT(<<"REJECT", d, Len(Trace)>>) /\ FALSE
=============================================================================
