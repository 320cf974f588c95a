----------------------------- MODULE FormatTrace -----------------------------
EXTENDS Format, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
E == Trace[l]
\* arguments of number functions: decimal text and a power of two
Num(x) == IF x.sh < 0 THEN BMul(BOfText(x.d), BPow2(-x.sh)) ELSE BOfText(x.d)
Den(x) == IF x.sh > 0 THEN BPow2(x.sh) ELSE <<1>>

Number(fn, out, a, b) ==
  CASE fn = "commafy" -> Commafied(out, a.d)
    [] fn = "si" -> InUnit("si", out, a.d)
    [] fn = "bytes" -> InUnit("bytes", out, a.d)
    [] fn = "one" -> Rounded(out, Num(a), Den(a))
    [] fn = "pct1" -> Percent(out, Num(a), Den(a), <<1>>, <<1>>)
    [] fn \in {"pcti", "pctd"} -> Percent(out, Num(a), Den(a), Num(b), Den(b))
    [] fn = "pctf" -> PercentFixed(out, Num(a), Den(a), Num(b), Den(b))
    [] fn \in {"ratioi", "ratiod"} -> Ratio(out, Num(a), Den(a), Num(b), Den(b))
    [] OTHER -> FALSE

TraceInit == l = 1 /\ cols = <<>> /\ pre = <<>> /\ timer = FALSE
TraceNext ==
  \/ IsEvent("begin") /\ cols' = <<>> /\ pre' = <<>> /\ timer' = FALSE
  \/ IsEvent("num") /\ Number(E.fn, E.out, E.a, E.b) /\ UNCHANGED fvars
  \/ IsEvent("new") /\ NewPrinter(E.n)
  \/ IsEvent("prefix") /\ SetPrefix(E.p)
  \/ IsEvent("col") /\ AddColumn(E.p, E.s, E.left)
  \/ IsEvent("write") /\ Write(E.i, E.w)
  \/ IsEvent("fill") /\ FillOne(E.i, E.c)
  \/ IsEvent("fillall") /\ FillAll(E.c)
  \/ IsEvent("print") /\ Printed(E.out)
  \/ IsEvent("count") /\ ColumnCount(E.n)
  \/ IsEvent("display") /\ Displayed(E.msg, E.p, E.out)
  \/ IsEvent("treset") /\ TReset
  \/ IsEvent("time") /\ Millis(BOfText(E.us), E.ms) /\ ShowsMillis(E.out, E.ms) /\ E.fout = <<40>> \o E.out \o <<41>> /\ UNCHANGED fvars
TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, l>>
TraceView == <<l, cols>>

TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  \/ d - 1 = Len(Trace)
  \/ PrintT(<<"REJECT", d, Len(Trace)>>) /\ FALSE
=============================================================================
