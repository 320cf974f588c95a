---------------------------- MODULE PairRunsTrace ----------------------------
EXTENDS PairRuns, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
E == Trace[l]
TraceInit == l = 1 /\ RInit
TraceNext ==
  \/ IsEvent("begin") /\ cols' = 0 /\ runs' = NoRuns /\ now' = -1
  \/ IsEvent("skip") /\ Skip(E.n)
  \/ IsEvent("addall") /\ BeginRun(E.n)
  \/ IsEvent("added") /\ EndRun
  \/ IsEvent("top") /\ ShowTop(E.p)
  \/ IsEvent("topd") /\ ShowTop(E.p)
  \/ IsEvent("pop") /\ PopTop(E.p)
  \/ IsEvent("count") /\ Count(E.n)
  \/ IsEvent("cols") /\ Columns(E.n)
  \/ IsEvent("empty") /\ IsEmpty(E.r)
  \/ \E k \in {"new", "comp", "del", "cmp", "end"} : IsEvent(k) /\ UNCHANGED rvars
TraceSpec == TraceInit /\ [][TraceNext]_<<rvars, l>>
TraceView == l
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  \/ d - 1 = Len(Trace)
  \/ PrintT(<<"REJECT", d, Len(Trace)>>) /\ FALSE
=============================================================================
