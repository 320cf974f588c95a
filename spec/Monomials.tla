----------------------------- MODULE Monomials -----------------------------
(* Monomials are sequences of exponents. Shared by every divisor-finder     *)
(* specification.                                                           *)
EXTENDS Integers, Sequences, FiniteSets

Divides(a, b) == \A v \in DOMAIN a : a[v] <= b[v]

\* The orders the drivers configure. All of them order a monomial after what divides it.
RECURSIVE LexLess(_, _, _)
LexLess(a, b, v) ==
  IF v > Len(a) THEN FALSE
  ELSE IF a[v] < b[v] THEN TRUE
  ELSE IF b[v] < a[v] THEN FALSE
  ELSE LexLess(a, b, v + 1)
RECURSIVE LastLess(_, _, _)                \* the last variable counts most
LastLess(a, b, v) ==
  IF v = 0 THEN FALSE
  ELSE IF a[v] < b[v] THEN TRUE
  ELSE IF b[v] < a[v] THEN FALSE
  ELSE LastLess(a, b, v - 1)
\* the degree as <<high, low>> in base 2^20: the sum itself may not fit TLC's integers
RECURSIVE Degree(_, _)
Degree(a, v) ==
  IF v = 0 THEN <<0, 0>>
  ELSE LET d == Degree(a, v - 1)
           low == d[2] + (a[v] % 1048576)
       IN  <<d[1] + (a[v] \div 1048576) + (low \div 1048576), low % 1048576>>
DegreeOf(a) == Degree(a, Len(a))
DegreeLess(a, b) ==
  LET x == DegreeOf(a)
      y == DegreeOf(b)
  IN  x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
LessBy(ord, a, b) ==
  CASE ord = 0 -> LexLess(a, b, 1)
    [] ord = 1 -> LastLess(a, b, Len(a))
    [] ord = 2 -> IF DegreeOf(a) = DegreeOf(b) THEN LexLess(a, b, 1) ELSE DegreeLess(a, b)
    [] OTHER -> IF DegreeOf(a) = DegreeOf(b) THEN LastLess(b, a, Len(a)) ELSE DegreeLess(a, b)
Less(a, b) == LexLess(a, b, 1)

Range(s) == {s[i] : i \in DOMAIN s}
Injective(s) == Cardinality(Range(s)) = Len(s)
Min2(a, b) == IF a < b THEN a ELSE b

\* all monomials in n variables with exponents in E
MonomialsOver(n, E) == [1..n -> E]
=============================================================================
