------------------------------ MODULE Amounts ------------------------------
(* Non-negative amounts of any size, as little-endian limb sequences in base *)
(* 2^24 without trailing zero limbs (TLC's integers have 32 bits, while      *)
(* liabilities go up to 2^63-1 and field elements up to 2^254).              *)
EXTENDS Naturals, Sequences

LimbBase == 16777216
Zero     == << >>

IsAmount(a) == /\ \A i \in 1..Len(a) : a[i] \in 0..(LimbBase - 1)
               /\ Len(a) > 0 => a[Len(a)] # 0

RECURSIVE AddCarry(_, _, _)
AddCarry(a, b, c) ==
  IF a = << >> /\ b = << >>
  THEN IF c = 0 THEN << >> ELSE << c >>
  ELSE LET x == (IF a = << >> THEN 0 ELSE Head(a)) + (IF b = << >> THEN 0 ELSE Head(b)) + c
           r == AddCarry(IF a = << >> THEN a ELSE Tail(a),
                         IF b = << >> THEN b ELSE Tail(b), x \div LimbBase)
       IN << x % LimbBase >> \o r
Add(a, b) == IF a = << >> THEN b ELSE IF b = << >> THEN a ELSE AddCarry(a, b, 0)

RECURSIVE Trim(_)
Trim(a) == IF a = << >> THEN a
           ELSE IF a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE SubBorrow(_, _, _)
SubBorrow(a, b, c) ==               \* a - b - c, for a >= b + c
  IF a = << >> THEN << >>
  ELSE LET y == (IF b = << >> THEN 0 ELSE Head(b)) + c
           x == Head(a)
       IN << IF x >= y THEN x - y ELSE x + LimbBase - y >>
          \o SubBorrow(Tail(a), IF b = << >> THEN b ELSE Tail(b), IF x >= y THEN 0 ELSE 1)
Sub(a, b) == Trim(SubBorrow(a, b, 0))

RECURSIVE SumIn(_, _)
SumIn(f, S) == IF S = {} THEN Zero
                ELSE LET x == CHOOSE x \in S : TRUE IN Add(f[x], SumIn(f, S \ {x}))
SumOver(f) == SumIn(f, DOMAIN f)    \* sum of the values of a finite function

\* below 2^63 = 2^15 * (2^24)^2
InRange63(a) == Len(a) < 3 \/ (Len(a) = 3 /\ a[3] < 32768)

Small(n) == IF n = 0 THEN Zero ELSE << n >>
=============================================================================
