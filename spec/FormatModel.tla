----------------------------- MODULE FormatModel -----------------------------
(* Small worlds in which the definitions of Format are checked against what   *)
(* the properties say about them.                                             *)
EXTENDS Format
CONSTANTS MaxLen, MaxVal, MaxLines
VARIABLES msg, num
mvars == <<fvars, msg, num>>

Chars == {97, 32, 10}
MInit == msg = <<>> /\ num = [a |-> 0, b |-> 1] /\ cols = <<NewCol(<<124>>, <<>>, TRUE), NewCol(<<45>>, <<124>>, FALSE)>> /\ pre = <<>> /\ timer = FALSE
\* three independent parts: messages, numbers, columns; the bounds switch them off
MNext ==
  \/ Len(msg) < MaxLen /\ (\E c \in Chars : msg' = Append(msg, c)) /\ UNCHANGED <<fvars, num>>
  \/ num.a < MaxVal /\ num.b = 1 /\ num' = [num EXCEPT !.a = @ + 1] /\ UNCHANGED <<fvars, msg>>
  \/ num.a > 0 /\ num.b < MaxVal /\ num' = [num EXCEPT !.b = @ + 1] /\ UNCHANGED <<fvars, msg>>
  \/ /\ Len(cols[1].lines) + Len(cols[2].lines) < MaxLines /\ Width(cols[1]) + Width(cols[2]) < 4
     /\ (\E i \in {1, 2} : (\E w \in {<<97>>, <<10>>, <<97, 98, 10>>} : Write(i, w)) \/ FillOne(i, 42))
     /\ UNCHANGED <<msg, num>>
MSpec == MInit /\ [][MNext]_mvars

\* messages: words are conserved in order, lines fit unless they hold one word, line breaks are kept
WrapRight ==
  \A prefix \in {<<>>, <<62>>} : \A lone \in BOOLEAN :
    LET w == Wrap(msg, prefix, 4, lone) IN
    /\ prefix = <<>> => Words(Join(w)) = Words(msg)
    /\ \A i \in DOMAIN w : StartsWith(w[i], prefix)
    /\ \A i \in DOMAIN w : LET t == SubSeq(w[i], Len(prefix) + 1, Len(w[i])) IN
         Len(w[i]) <= 4 \/ Len(Words(t)) <= 1
    /\ Len(w) >= Len(Lines(msg))
    /\ (\A x \in Range(Lines(msg)) : Len(x) <= 3) => Len(w) = Len(Lines(msg))

\* numbers: there is a correct rounding, at most two, and it is within half a tenth
SmallText(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + (n \div 10), 48 + (n % 10)>> ELSE Dec3(n)
Tenth(n) == SmallText(n \div 10) \o <<DOT>> \o <<48 + (n % 10)>>
RoundRight ==
  num.a = 0 \/
  LET a == num.a
      b == num.b
      ok == {n \in 0..(10 * MaxVal + 1) : Rounded(Tenth(n), BNat(a), BNat(b))} IN
  /\ ok = {n \in 0..(10 * MaxVal + 1) : LET d == 20 * a - 2 * b * n IN d <= b /\ -d <= b /\ ~(d = b /\ n % 5 = 2)}
  /\ Cardinality(ok) \in {1, 2}
BigRight ==
  LET a == num.a * 7919
      b == num.b * 31 IN
  /\ BMul(BNat(a), BNat(b)) = BNat(a * b) /\ BAdd(BNat(a), BNat(b)) = BNat(a + b)
  /\ BLeq(BNat(a), BNat(b)) = (a <= b)
  /\ BMul(BPow2(37), BPow2(11)) = BPow2(48)

\* columns: every row has the same length, and each column's text can be read off its place
RowsAligned == \A r, q \in 1..Height : Len(Row(r)) = Len(Row(q))
TextKept ==
  \A r \in 1..Height :
    LET off == 1
        w == Width(cols[1]) IN
    r <= Len(cols[1].lines) => LET t == cols[1].lines[r].t IN SubSeq(Row(r), off + 1, off + Len(t)) = t
=============================================================================
