------------------------------- MODULE Format -------------------------------
(* What numbers, columns, messages and times look like when printed.         *)
EXTENDS Text, BigNat, TLC

-----------------------------------------------------------------------------
(* Numbers. Arguments are fractions a / b of naturals (BigNat).              *)
Z0 == 48
DOT == 46
COMMA == 44
PERCENT == 37
T_zz == <<48, 47, 48>>   \* 0/0
T_qz == <<63, 47, 48>>   \* ?/0

\* "x.y" in plain notation; its value in tenths
IsOneDecimal(s) == Len(s) >= 3 /\ s[Len(s) - 1] = DOT /\ IsDigit(s[Len(s)]) /\ Canonical(SubSeq(s, 1, Len(s) - 2))
Tenths(s) == BOfText(SubSeq(s, 1, Len(s) - 2) \o <<s[Len(s)]>>)

\* s is a/b rounded to one decimal. Exactly halfway rounds up when a/b is a multiple of 1/4, which is
\* represented exactly; otherwise either neighbour of a halfway point will do, and numbers beyond the
\* precision of the arithmetic may be off by that precision (two parts in 10^15).
Rounded(s, a, b) ==
  /\ IsOneDecimal(s)
  /\ LET n == Tenths(s)
         v == BMul(BNat(20), a)
         m == BMul(BMul(<<2>>, b), n)
         slack == BMul(<<2>>, BDrop(v, 5))
         last == s[Len(s)] - 48 IN
     /\ BLeq(m, BAdd(BAdd(v, b), slack))
     /\ BLeq(v, BAdd(BAdd(m, b), slack))
     /\ ~(slack = <<>> /\ v = BAdd(m, b) /\ last \in {2, 7})

\* with digit groups
Commafied(s, digits) ==
  s = FoldLeft(LAMBDA acc, i : acc \o <<digits[i]>> \o (IF i # Len(digits) /\ (Len(digits) - i) % 3 = 0 THEN <<COMMA>> ELSE <<>>),
               <<>>, [i \in DOMAIN digits |-> i])

Units(kind) == IF kind = "si" THEN << <<107>>, <<77>>, <<71>>, <<84>> >> ELSE << <<107, 66>>, <<77, 66>>, <<71, 66>>, <<84, 66>> >>
Step(kind) == IF kind = "si" THEN 1000 ELSE 1024
Suffix(s, u) == Len(u) < Len(s) /\ SubSeq(s, Len(s) - Len(u) + 1, Len(s)) = u
\* digits: the number as decimal text
InUnit(kind, s, digits) ==
  LET v == BOfText(digits)
      U == Units(kind) IN
  IF BLeq(v, BNat(Step(kind) - 1)) THEN s = digits \o (IF kind = "si" THEN <<>> ELSE <<66>>)
  ELSE \E i \in 1..4 :
         /\ Suffix(s, U[i])
         /\ LET t == SubSeq(s, 1, Len(s) - Len(U[i])) IN
            /\ Rounded(t, v, BPow(Step(kind), i))
            /\ BLeq(<<10>>, Tenths(t))
            /\ i < 4 => ~BLeq(BNat(10 * Step(kind)), Tenths(t))

Ratio(s, a, b, c, d) == \* (a/b) / (c/d)
  IF c = <<>> THEN s = (IF a = <<>> THEN T_zz ELSE T_qz) ELSE Rounded(s, BMul(a, d), BMul(b, c))
Percent(s, a, b, c, d) ==
  s # <<>> /\ s[Len(s)] = PERCENT /\ Ratio(SubSeq(s, 1, Len(s) - 1), BMul(BNat(100), a), b, c, d)
PercentFixed(s, a, b, c, d) ==
  LET t == SelectSeq(s, LAMBDA x : x # SP) IN
  /\ Percent(t, a, b, c, d)
  /\ s = Repeat(SP, IF Len(t) < 6 THEN 6 - Len(t) ELSE 0) \o t

-----------------------------------------------------------------------------
(* Columns. A column: [pre, suf, left, lines: seq of [t, fill]], where the    *)
(* last line may still be open (nothing ended it yet).                        *)
VARIABLES
  cols,    \* the columns
  pre,     \* printed in front of each row
  timer    \* processor time at the last reset, or -1
fvars == <<cols, pre, timer>>

NoFill == 0
NewCol(p, s, left) == [pre |-> p, suf |-> s, left |-> left, lines |-> <<>>, open |-> FALSE]
\* writing text into a column
Put(col, text) ==
  FoldLeft(LAMBDA c, x :
             LET n == Len(c.lines)
                 o == IF c.open THEN c ELSE [c EXCEPT !.lines = Append(@, [t |-> <<>>, fill |-> NoFill]), !.open = TRUE] IN
             IF x = NL THEN [o EXCEPT !.open = FALSE]
             ELSE [o EXCEPT !.lines[Len(o.lines)].t = Append(@, x)],
           col, text)
\* ending the current line with a fill character
Fill(col, ch) ==
  LET o == IF col.open THEN col ELSE [col EXCEPT !.lines = Append(@, [t |-> <<>>, fill |-> NoFill])] IN
  [o EXCEPT !.lines[Len(o.lines)].fill = ch, !.open = FALSE]
Width(col) == FoldLeft(LAMBDA w, x : Max2(w, Len(x.t)), 0, col.lines)
Cell(col, r) ==
  LET c == IF r <= Len(col.lines) THEN col.lines[r] ELSE [t |-> <<>>, fill |-> NoFill]
      pad == Repeat(IF c.fill = NoFill THEN SP ELSE c.fill, Width(col) - Len(c.t)) IN
  col.pre \o (IF col.left THEN c.t \o pad ELSE pad \o c.t) \o col.suf
Height == FoldLeft(LAMBDA h, c : Max2(h, Len(c.lines)), 0, cols)
Row(r) == pre \o FoldLeft(LAMBDA acc, c : acc \o Cell(c, r), <<>>, cols) \o <<NL>>
Table == FoldLeft(LAMBDA acc, r : acc \o Row(r), <<>>, [r \in 1..Height |-> r])

NewPrinter(n) == cols' = [i \in 1..n |-> NewCol(<<SP, SP>>, <<>>, TRUE)] /\ pre' = <<>> /\ UNCHANGED timer
SetPrefix(p) == pre' = p /\ UNCHANGED <<cols, timer>>
AddColumn(p, s, left) == cols' = Append(cols, NewCol(p, s, left)) /\ UNCHANGED <<pre, timer>>
Write(i, text) == cols' = [cols EXCEPT ![i] = Put(@, text)] /\ UNCHANGED <<pre, timer>>
FillOne(i, ch) == cols' = [cols EXCEPT ![i] = Fill(@, ch)] /\ UNCHANGED <<pre, timer>>
FillAll(ch) == cols' = [i \in DOMAIN cols |-> Fill(cols[i], ch)] /\ UNCHANGED <<pre, timer>>
Printed(out) == out = Table /\ UNCHANGED fvars
ColumnCount(n) == n = Len(cols) /\ UNCHANGED fvars

-----------------------------------------------------------------------------
(* Messages *)
\* one line of a message: its leading white space and its words, each with the white space before it
Parsed(line) ==
  LET k == CHOOSE k \in 0..Len(line) : (\A i \in 1..k : IsSpace(line[i])) /\ (k = Len(line) \/ ~IsSpace(line[k + 1]))
      f == FoldLeft(LAMBDA acc, c :
                      IF IsSpace(c) THEN (IF acc.w = <<>> THEN [acc EXCEPT !.sp = Append(@, c)]
                                          ELSE [ws |-> Append(acc.ws, [sp |-> acc.sp, w |-> acc.w]), sp |-> <<c>>, w |-> <<>>])
                      ELSE [acc EXCEPT !.w = Append(@, c)],
                    [ws |-> <<>>, sp |-> <<>>, w |-> <<>>], SubSeq(line, k + 1, Len(line))) IN
  [ind |-> SubSeq(line, 1, k), ws |-> IF f.w = <<>> THEN f.ws ELSE Append(f.ws, [sp |-> f.sp, w |-> f.w])]
\* the output lines made from it; lone: a first word that does not fit may leave the start of the line on its own
WrapLine(line, prefix, width, lone) ==
  LET p == Parsed(line)
      start == prefix \o p.ind
      f == FoldLeft(LAMBDA acc, x :
                      IF Len(acc.cur) # 0 /\ Len(acc.cur) + Len(x.sp) + Len(x.w) > width /\ (lone \/ ~acc.first)
                      THEN [done |-> Append(acc.done, acc.cur), cur |-> start \o x.w, first |-> FALSE]
                      ELSE [acc EXCEPT !.cur = @ \o x.sp \o x.w, !.first = FALSE],
                    [done |-> <<>>, cur |-> start, first |-> TRUE], p.ws) IN
  Append(f.done, f.cur)
Join(ls) == FoldLeft(LAMBDA acc, x : acc \o x \o <<NL>>, <<>>, ls)
Wrap(msg, prefix, width, lone) ==
  FoldLeft(LAMBDA acc, x : acc \o WrapLine(x, prefix, width, lone), <<>>, Lines(msg))
\* the last line break may be missing after a line of white space only
Displayed(msg, prefix, out) ==
  /\ \E lone \in BOOLEAN :
       LET w == Join(Wrap(msg, prefix, 79, lone)) IN
       out = w \/ (msg # <<>> /\ msg[Len(msg)] # NL /\ Parsed(Lines(msg)[Len(Lines(msg))]).ws = <<>> /\ out \o <<NL>> = w)
  /\ UNCHANGED fvars

-----------------------------------------------------------------------------
(* Time: microseconds since the last reset as a BigNat *)
TReset == UNCHANGED <<cols, pre>> /\ timer' = TRUE
\* ms (decimal text) is us / 1000 to the nearest
Millis(us, ms) ==
  LET v == BMul(<<2>>, us)
      m == BMul(BNat(2000), BOfText(ms)) IN
  /\ Canonical(ms)
  /\ BLeq(m, BAdd(v, BNat(1000))) /\ BLeq(v, BAdd(m, BNat(1000)))
Dec2(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
Dec3(n) == <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
\* the time as text: h hours, m minutes, s seconds, t thousandths
TimeText(hours, h, m, s, t) ==
  (IF h # <<>> THEN hours \o <<104>> ELSE <<>>) \o (IF h # <<>> \/ m # 0 THEN Dec2(m) \o <<109>> ELSE <<>>)
  \o Dec2(s) \o <<DOT>> \o Dec3(t) \o <<115>>
Small(t) == IF Len(t) \in 1..2 /\ Canonical(t) THEN (IF Len(t) = 1 THEN t[1] - 48 ELSE (t[1] - 48) * 10 + t[2] - 48) ELSE 99
Place(text, c) == IF \E i \in DOMAIN text : text[i] = c THEN CHOOSE i \in DOMAIN text : text[i] = c ELSE 0
ShowsMillis(text, ms) ==
  LET n == Len(text)
      hp == Place(text, 104)
      mp == Place(text, 109)
      hours == SubSeq(text, 1, hp - 1)
      m == IF mp = 0 THEN 0 ELSE Small(SubSeq(text, hp + 1, mp - 1))
      sec == Small(SubSeq(text, (IF mp = 0 THEN hp ELSE mp) + 1, n - 5))
      t == (text[n - 3] - 48) * 100 + (text[n - 2] - 48) * 10 + text[n - 1] - 48
      h == IF Canonical(hours) THEN BOfText(hours) ELSE <<>> IN
  /\ n >= 6 /\ \A i \in (n - 3)..(n - 1) : IsDigit(text[i])
  /\ m < 60 /\ sec < 60
  /\ text = TimeText(hours, h, m, sec, t)
  /\ BOfText(ms) = BAdd(BMul(h, BNat(3600000)), BNat((m * 60 + sec) * 1000 + t))
=============================================================================
