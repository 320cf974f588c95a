-------------------------- MODULE SimulatorTrace --------------------------
EXTENDS Simulator, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
E == Trace[l]
TraceInit == l = 1 /\ kind = "none" /\ args = <<>> /\ rep = 1 /\ hist = <<>> /\ known = TRUE /\ inrun = FALSE /\ done = <<>> /\ bag = NoBag
             /\ ends = {} /\ bad = FALSE /\ cur = <<>> /\ rows = <<>>
TraceNext ==
  \/ IsEvent("sbegin") /\ New(E.rep)
  \/ IsEvent("make") /\ Make(E.kind, E.a)
  \/ IsEvent("run") /\ Run(E.name, E.cmps, E.mem, E.ticks)
  \/ IsEvent("spush") /\ Push(E.vs)
  \/ IsEvent("spop") /\ Pop(E.r)
  \/ IsEvent("runend") /\ RunEnd /\ (IF E.told THEN Told(E.out) ELSE E.out = <<>>)
  \/ IsEvent("exit") /\ Exit(E.code)
  \/ IsEvent("real") /\ Real
  \/ IsEvent("summary") /\ Summary(E.out)
  \/ IsEvent("events") /\ Events(E.out)
  \/ IsEvent("data") /\ Data(E.out)
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, l>>
TraceView == <<l>>
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  \/ d - 1 = Len(Trace)
  \/ PrintT(<<"REJECT", d, Len(Trace)>>) /\ FALSE
=============================================================================
