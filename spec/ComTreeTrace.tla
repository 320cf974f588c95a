--------------------------- MODULE ComTreeTrace ---------------------------
EXTENDS ComTree, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
E == Trace[l]
TraceInit == l = 1 /\ Init
TraceNext ==
  \/ IsEvent("begin") /\ New
  \/ IsEvent("create") /\ Create(E.k, E.room, E.c)
  \/ IsEvent("push") /\ PushBack(E.k, E.v, E.c)
  \/ IsEvent("pushc") /\ PushBackWithCapacity(E.k, E.v, E.c)
  \/ IsEvent("pop") /\ PopBack(E.k, E.c)
  \/ IsEvent("write") /\ Write(E.k, E.n, E.v, E.c)
  \/ IsEvent("clear") /\ Clear(E.k, E.c)
  \/ IsEvent("grow") /\ Grow(E.k, E.c)
  \/ IsEvent("copy") /\ Copy(E.k, E.f, E.room, E.c)
  \/ IsEvent("swap") /\ Swap(E.k, E.f)
  \/ IsEvent("move") /\ Move(E.k, E.f, E.c, E.left)
  \/ IsEvent("size") /\ Size(E.k, E.n, E.empty, E.c)
  \/ IsEvent("free") /\ Free(E.k, E.n, E.r)
  \/ IsEvent("all") /\ Contents(E.k, E.out, E.last)
  \/ IsEvent("nav") /\ Navigate(E.n, E.j, E.r)
  \/ IsEvent("ord") /\ Order(E.a, E.b, E.r)
TraceSpec == TraceInit /\ [][TraceNext]_<<ctvars, l>>
TraceView == <<l, s>>
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  \/ d - 1 = Len(Trace)
  \/ PrintT(<<"REJECT", d, Len(Trace)>>) /\ FALSE
=============================================================================
