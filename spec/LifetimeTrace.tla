--------------------------- MODULE LifetimeTrace ----------------------------
(* Checks what a real container did to the objects it was given. The other  *)
(* events of the trace (the calls) are judged by other specifications.      *)
EXTENDS Lifetime, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Judged == {"begin", "ctor", "copy", "mctor", "asg", "asgm", "dtor", "read", "gone", "fault"}

TraceInit == LifeInit /\ l = 1
TraceNext ==
  \/ IsEvent("begin") /\ obj' = NoObjects
  \/ IsEvent("ctor") /\ Construct(E.o, E.id)
  \/ IsEvent("copy") /\ CopyConstruct(E.o, E.s)
  \/ IsEvent("mctor") /\ MoveConstruct(E.o, E.s)
  \/ IsEvent("asg") /\ Assign(E.o, E.s)
  \/ IsEvent("asgm") /\ MoveAssign(E.o, E.s)
  \/ IsEvent("dtor") /\ Destroy(E.o)
  \/ IsEvent("read") /\ Read(E.o, E.id)
  \/ IsEvent("gone") /\ Gone(E.live)
  \/ l <= Len(Trace) /\ Trace[l].e \notin Judged /\ l' = l + 1 /\ UNCHANGED obj
TraceSpec == TraceInit /\ [][TraceNext]_<<obj, l>>
TraceView == <<l, Cardinality(Exists)>>
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  \/ d - 1 = Len(Trace)
  \/ PrintT(<<"REJECT", d, Len(Trace)>>) /\ FALSE
=============================================================================
