--------------------------- MODULE PairQueueTrace ---------------------------
EXTENDS PairQueue, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
E == Trace[l]

TraceInit == l = 1 /\ PInit
TraceNext ==
  /\ popped' = popped
  /\ \/ IsEvent("begin") /\ New
     \/ IsEvent("skip") /\ SkipColumns(E.n)
     \/ IsEvent("add") /\ BeginAdd(E.rows, E.keys)
     \/ IsEvent("added") /\ EndAdd
     \/ IsEvent("addfail") /\ FailAdd
     \/ IsEvent("throw") /\ UNCHANGED pvars
     \/ IsEvent("top") /\ Top(E.p)
     \/ IsEvent("topd") /\ TopData(E.o, E.p)
     \/ IsEvent("pop") /\ Pop(E.p)
     \/ IsEvent("retire") /\ Retire(E.i)
     \/ IsEvent("empty") /\ Empty(E.r)
     \/ IsEvent("isret") /\ Retired(E.i, E.r)
     \/ IsEvent("cols") /\ Columns(E.n)
     \/ IsEvent("count") /\ PairCount(E.n)
     \/ IsEvent("new") /\ NewData(E.o)
     \/ IsEvent("comp") /\ Compute(E.o, E.p)
     \/ IsEvent("cmp") /\ Compare(E.x, E.p, E.y, E.q)
     \/ IsEvent("del") /\ DestroyData(E.o, E.p)
     \/ IsEvent("end") /\ End
TraceSpec == TraceInit /\ [][TraceNext]_<<pvars, popped, l>>
TraceView == <<l, data>>

TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  \/ d - 1 = Len(Trace)
  \/ PrintT(<<"REJECT", d, Len(Trace)>>) /\ FALSE
=============================================================================
