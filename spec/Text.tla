-------------------------------- MODULE Text --------------------------------
(* Texts are sequences of character codes. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

NL == 10
SP == 32
DASH == 45
IsSpace(c) == c \in {32, 9, 10, 11, 12, 13}
IsDigit(c) == c \in 48..57

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Repeat(c, n) == [i \in 1..n |-> c]
Max2(a, b) == IF a < b THEN b ELSE a

\* a comes strictly before b in dictionary order
LexLess(a, b) ==
  \E i \in 1..Len(b) :
    /\ i <= Len(a) + 1
    /\ SubSeq(a, 1, i - 1) = SubSeq(b, 1, i - 1)
    /\ i = Len(a) + 1 \/ a[i] < b[i]

\* the lines of a text; a final line break ends the last line
Lines(s) ==
  LET f == FoldLeft(LAMBDA acc, c : IF c = NL THEN [done |-> Append(acc.done, acc.cur), cur |-> <<>>, open |-> FALSE]
                                    ELSE [acc EXCEPT !.cur = Append(@, c), !.open = TRUE],
                    [done |-> <<>>, cur |-> <<>>, open |-> FALSE], s) IN
  IF f.open THEN Append(f.done, f.cur) ELSE f.done

\* the words of a text
Words(s) ==
  LET f == FoldLeft(LAMBDA acc, c : IF IsSpace(c) THEN (IF acc.cur = <<>> THEN acc ELSE [done |-> Append(acc.done, acc.cur), cur |-> <<>>])
                                    ELSE [acc EXCEPT !.cur = Append(@, c)],
                    [done |-> <<>>, cur |-> <<>>], s) IN
  IF f.cur = <<>> THEN f.done ELSE Append(f.done, f.cur)

\* decimal notation of a natural number without leading zeros
Canonical(s) == s # <<>> /\ (\A i \in DOMAIN s : IsDigit(s[i])) /\ (s[1] # 48 \/ Len(s) = 1)
\* order of canonical decimal texts
DecLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ (a = b \/ LexLess(a, b)))
=============================================================================
