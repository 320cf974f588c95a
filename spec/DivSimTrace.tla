---------------------------- MODULE DivSimTrace ----------------------------
EXTENDS DivSim, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
E == Trace[l]
TraceInit == l = 1 /\ DInit /\ rep = 1
TraceNext ==
  \/ IsEvent("dbegin") /\ DNew(E.rep, E.tell)
  \/ IsEvent("make") /\ DMake([nv |-> E.nv, ins |-> E.ins, qs |-> E.qs, all |-> E.all])
  \/ IsEvent("run") /\ DRun(E.name, E.ticks, E.queries, E.size)
  \/ IsEvent("ins") /\ Insertion(E.m, E.n)
  \/ IsEvent("one") /\ QueryOne(E.m, E.r)
  \/ IsEvent("many") /\ QueryMany(E.m, E.n)
  \/ IsEvent("runend") /\ DRunEnd(E.out, E.err)
  \/ IsEvent("exit") /\ DExit(E.code)
  \/ IsEvent("real") /\ DReal
  \/ IsEvent("data") /\ DData(E.out)
TraceSpec == TraceInit /\ [][TraceNext]_<<dvars, l>>
TraceView == <<l>>
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  \/ d - 1 = Len(Trace)
  \/ PrintT(<<"REJECT", d, Len(Trace)>>) /\ FALSE
=============================================================================
