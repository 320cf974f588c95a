------------------------------ MODULE CliTrace ------------------------------
EXTENDS Cli, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
E == Trace[l]

TraceInit == l = 1 /\ CInit
TraceNext ==
  \/ IsEvent("begin") /\ names' = {} /\ acts' = <<>> /\ help' = [pre |-> <<>>, post |-> <<>>] /\ par' = [kind |-> "string", val |-> <<>>]
  \/ IsEvent("reg") /\ Register(E.n)
  \/ IsEvent("res") /\ ResolveName(E.p, E.k, E.n)
  \/ IsEvent("cwp") /\ CreateWithPrefix(E.p, E.k, E.n, E.made)
  \/ IsEvent("cre") /\ CreateExact(E.p, TRUE, E.k, E.n, E.made)
  \/ IsEvent("nul") /\ CreateExact(E.p, FALSE, E.k, E.n, E.made)
  \/ IsEvent("lst") /\ ListNames(E.p, E.out)
  \/ IsEvent("emp") /\ IsEmpty(E.r)
  \/ IsEvent("par") /\ NewPar(E.kind, E.v)
  \/ IsEvent("arg") /\ Argument(E.w, E.k, E.v)
  \/ IsEvent("set") /\ SetValue(E.v)
  \/ IsEvent("get") /\ GetValue(E.v)
  \/ IsEvent("act") /\ RegisterAction(E.a)
  \/ IsEvent("rhelp") /\ RegisterHelp(E.pre, E.post)
  \/ IsEvent("parse") /\ Parse(E.w, E.k, E.act, E.direct, E.vals)
  \/ IsEvent("acts") /\ ActionNames(E.out)
  \/ IsEvent("mk") /\ CreateAction(E.p, E.k, E.n)
  \/ IsEvent("help") /\ ShowHelp(E.w, E.k, E.out)
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, l>>
TraceView == <<l, names, acts, par>>

TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  \/ d - 1 = Len(Trace)
  \/ PrintT(<<"REJECT", d, Len(Trace)>>) /\ FALSE
=============================================================================
