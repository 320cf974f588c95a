--------------------------- MODULE HashTableTrace ---------------------------
EXTENDS HashTable, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
E == Trace[l]

TraceInit == l = 1 /\ tab = None /\ mod = 1
TraceNext ==
  \/ IsEvent("begin") /\ New(E.mod)
  \/ IsEvent("ins") /\ Insert(E.k, E.v, E.r, E.h, E.hk, E.hv)
  \/ IsEvent("insm") /\ InsertMany(E.ks, E.vs, E.hs)
  \/ IsEvent("find") /\ Lookup(E.k, E.h, E.hk, E.hv)
  \/ IsEvent("findm") /\ LookupMany(E.ks, E.out)
  \/ IsEvent("read") /\ Read(E.h, E.hk, E.hv)
  \/ IsEvent("set") /\ SetValue(E.h, E.v)
  \/ IsEvent("rem") /\ Remove(E.h)
  \/ IsEvent("reset") /\ Reset
  \/ IsEvent("hard") /\ HardReset
TraceSpec == TraceInit /\ [][TraceNext]_<<hvars, l>>
TraceView == <<l, tab>>

TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  \/ d - 1 = Len(Trace)
  \/ PrintT(<<"REJECT", d, Len(Trace)>>) /\ FALSE
=============================================================================
