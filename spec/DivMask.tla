------------------------------ MODULE DivMask ------------------------------
(* Abbreviations ("masks") of monomials.  A calculator in some state turns  *)
(* a monomial into a mask; a comparison of two masks may only say "cannot   *)
(* divide" when that is true.  Masks are opaque here: what the state knows  *)
(* of a mask is which monomials it stands for.                              *)
(*   state: slots |-> for each mask in use, the set of monomials it bounds  *)
(*          from below ({} for a reset mask that bounds nothing yet)        *)
(*          "single" masks were computed from one monomial.                 *)
EXTENDS Monomials

CONSTANTS Slots, Vars, Exps
VARIABLES slots,   \* slot -> [set: monomials bounded, one: computed directly from its only monomial]
          calc     \* the monomials the calculator was last built for; <<>> by default
mvars == <<slots, calc>>

Empty == [s \in {} |-> {}]
Mask(S, one) == [set |-> S, one |-> one]

New == slots' = Empty /\ calc' = <<>>

\* changing the calculator invalidates every mask made before
Rebuild(ms) == calc' = ms /\ slots' = Empty

Put(s, v) == slots' = [t \in DOMAIN slots \cup {s} |-> IF t = s THEN v ELSE slots[t]] /\ UNCHANGED calc

Compute(s, m) == Put(s, Mask({m}, TRUE))
Reset(s) == Put(s, Mask({}, FALSE))
\* s is lowered to bound everything that s or t bounds
Lower(s, t) == {s, t} \subseteq DOMAIN slots /\ Put(s, Mask(slots[s].set \cup slots[t].set, FALSE))
Copy(s, t) == t \in DOMAIN slots /\ Put(s, slots[t])

\* must a comparison of mask a with the mask of monomial y allow the division
MustAllow(a, y) == \E x \in a.set : Divides(x, y)

Compare(s, t, r) ==
  /\ {s, t} \subseteq DOMAIN slots
  /\ slots[t].one
  /\ (\A y \in slots[t].set : MustAllow(slots[s], y)) => r
  /\ UNCHANGED mvars

\* same exponents, same calculator: same mask
Equal(s, t, r) ==
  /\ {s, t} \subseteq DOMAIN slots
  /\ (slots[s].one /\ slots[t].one /\ slots[s].set = slots[t].set) => r
  /\ UNCHANGED mvars

\* the combined test of mask and exponents is exact
ExtDivides(s, t, r) ==
  /\ {s, t} \subseteq DOMAIN slots
  /\ slots[s].one /\ slots[t].one
  /\ r = (\A x \in slots[s].set, y \in slots[t].set : Divides(x, y))
  /\ UNCHANGED mvars

\* one mask against many targets: the indices of ms for which the comparison allowed the division,
\* for which the masks were equal, and for which the exact test said yes
Row(s, ms, can, eq, div) ==
  /\ s \in DOMAIN slots
  /\ {j \in DOMAIN ms : MustAllow(slots[s], ms[j])} \subseteq Range(can)
  /\ slots[s].one =>
       /\ \A x \in slots[s].set :
            /\ {j \in DOMAIN ms : ms[j] = x} \subseteq Range(eq)
            /\ Range(div) = {j \in DOMAIN ms : Divides(x, ms[j])}
  /\ UNCHANGED mvars

----------------------------------------------------------------------------
Mono == MonomialsOver(Vars, Exps)
MInit == slots = Empty /\ calc = <<>>
MNext ==
  \/ \E m \in Mono : Rebuild(<<m>>)
  \/ \E s \in Slots, m \in Mono : Compute(s, m)
  \/ \E s \in Slots : Reset(s)
  \/ \E s \in DOMAIN slots, t \in DOMAIN slots : Lower(s, t) \/ Copy(s, t)
  \/ \E s \in DOMAIN slots, t \in DOMAIN slots, r \in BOOLEAN : Compare(s, t, r) \/ Equal(s, t, r) \/ ExtDivides(s, t, r)
MSpec == MInit /\ [][MNext]_mvars

\* lowering a mask never makes it reject more
LoweringMonotone ==
  [][\A s \in DOMAIN slots \cap DOMAIN slots' : \A t \in DOMAIN slots : Lower(s, t) =>
       \A y \in Mono : MustAllow(slots[s], y) => MustAllow(slots'[s], y)]_mvars
\* the obligation is transitive: if x must be allowed for y and y divides z then x must be allowed for z
Transitive == \A s \in DOMAIN slots : \A y, z \in Mono : (MustAllow(slots[s], y) /\ Divides(y, z)) => MustAllow(slots[s], z)
\* a computed mask allows itself; a reset mask has no obligation
Reflexive == \A s \in DOMAIN slots : \A x \in slots[s].set : MustAllow(slots[s], x)
=============================================================================
