---------------------------- MODULE DivMaskBits -----------------------------
(* How the masks of DivMask are made: every bit is a pair (variable,        *)
(* threshold) and is set when the exponent of the variable is greater than  *)
(* the threshold.  The default calculator doubles thresholds; one built for *)
(* a collection spreads thresholds over the range of exponents it contains. *)
(* Threshold arithmetic is done in the exponent type, here modulo Wrap.     *)
(* Checked: whatever the thresholds, the masks meet the obligations of      *)
(* DivMask (this module implements it: every answer it gives is allowed).   *)
EXTENDS Monomials

CONSTANTS Vars, Exps, TotalBits, Wrap, CollSize
VARIABLES bits, built

Mono == MonomialsOver(Vars, Exps)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

\* the bits of variable v given how many it gets
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
DefaultThreshold(i) == IF i = 1 THEN 0 ELSE Pow2(i - 2) % Wrap
DefaultBitsOf(v) == TotalBits \div Vars + (IF v - 1 < (TotalBits % Vars) THEN 1 ELSE 0)

RECURSIVE Flatten(_, _)
Flatten(f, v) == IF v > Vars THEN <<>> ELSE f[v] \o Flatten(f, v + 1)

DefaultBits == Flatten([v \in 1..Vars |-> [i \in 1..DefaultBitsOf(v) |-> <<v, DefaultThreshold(i)>>]], 1)

\* a built calculator hands out bits to variables in some order of preference
Low(ms, v)  == Min({ms[k][v] : k \in DOMAIN ms} \cup {ms[1][1]})
High(ms, v) == Max({ms[k][v] : k \in DOMAIN ms} \cup {ms[1][1]})
Step(ms, v, n) == LET d == (High(ms, v) - Low(ms, v)) \div n IN IF d = 0 THEN 1 ELSE d
Split(ms, v) ==
  LET avg == Low(ms, v) + (High(ms, v) - Low(ms, v)) \div 2
      n == Cardinality({k \in DOMAIN ms : ms[k][v] < avg})
  IN IF n > Len(ms) \div 2 THEN Len(ms) - n ELSE n
Orders(ms) == {p \in [1..Vars -> 1..Vars] : Injective(p) /\ \A i \in 1..Vars - 1 : Split(ms, p[i]) >= Split(ms, p[i + 1])}
Share(p, v) == LET i == CHOOSE i \in 1..Vars : p[i] = v IN TotalBits \div Vars + (IF i - 1 < (TotalBits % Vars) THEN 1 ELSE 0)
BuiltBits(ms, p) ==
  Flatten([v \in 1..Vars |->
    LET n == Share(p, v) IN
    [i \in 1..n |-> <<v, (Low(ms, v) + Step(ms, v, n) * (i - 1)) % Wrap>>]], 1)

MaskOf(m) == {i \in DOMAIN bits : m[bits[i][1]] > bits[i][2]}
MaxMask == DOMAIN bits
CanDivide(a, b) == a \subseteq b
LowerBound(S) == {i \in MaxMask : \A m \in S : i \in MaskOf(m)}

BInit == bits = DefaultBits /\ built = <<>>
Build(ms) == built' = ms /\ \E p \in Orders(ms) : bits' = BuiltBits(ms, p)
Default == built' = <<>> /\ bits' = DefaultBits
BNext == Default \/ \E n \in 1..CollSize : \E ms \in [1..n -> Mono] : Build(ms)
BSpec == BInit /\ [][BNext]_<<bits, built>>

BitCount == Len(bits) = TotalBits
\* DivMask!Compare, Equal, ExtDivides and Row hold of these masks
Sound == \A x, y \in Mono : Divides(x, y) => CanDivide(MaskOf(x), MaskOf(y))
SoundLower == \A x1, x2 \in Mono : \A y \in Mono :
  (Divides(x1, y) \/ Divides(x2, y)) => CanDivide(LowerBound({x1, x2}), MaskOf(y))
ExactExtended == \A x, y \in Mono : (CanDivide(MaskOf(x), MaskOf(y)) /\ Divides(x, y)) = Divides(x, y)
=============================================================================
