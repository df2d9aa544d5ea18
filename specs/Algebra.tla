------------------------------ MODULE Algebra ------------------------------
(* The vector algebra of common/math.go over a ring: scalars and logarithms  *)
(* of group elements are both numbers.  Everything else in the library is    *)
(* written in these operations.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Map(a, Op(_)) == [i \in DOMAIN a |-> Op(a[i])]
Plus(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
Minus(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
Times(a, b) == [i \in DOMAIN a |-> a[i] * b[i]]
Scale(a, x) == [i \in DOMAIN a |-> a[i] * x]
Negate(a) == Scale(a, -1)
RECURSIVE SumTo(_, _), ProdTo(_, _), Power(_, _)
SumTo(a, k) == IF k = 0 THEN 0 ELSE SumTo(a, k - 1) + a[k]
Total(a) == SumTo(a, Len(a))
ProdTo(a, k) == IF k = 0 THEN 1 ELSE ProdTo(a, k - 1) * a[k]
Prod(a) == ProdTo(a, Len(a))
Dot(a, b) == Total(Times(a, b))
EvenOnes(a) == [i \in 1..(Len(a) \div 2) |-> a[2 * i - 1]]
OddOnes(a) == [i \in 1..(Len(a) \div 2) |-> a[2 * i]]
Turned(a) == [i \in DOMAIN a |-> a[Len(a) + 1 - i]]
Chosen(a, bits) == [i \in DOMAIN a |-> IF bits[i] = 0 THEN 1 ELSE a[i]]
Power(x, k) == IF k = 0 THEN 1 ELSE x * Power(x, k - 1)
Series(n, x) == [i \in 1..n |-> Power(x, i - 1)]
Many(x, n) == [i \in 1..n |-> x]

(* Binary digits, least significant first; the number is given by the set of *)
(* positions of its ones.                                                    *)
Highest(S) == IF S = {} THEN 0 ELSE (CHOOSE x \in S : \A y \in S : y <= x) + 1
BitsOf(S, n) == [i \in 1..(IF Highest(S) > n THEN Highest(S) ELSE n) |-> IF (i - 1) \in S THEN 1 ELSE 0]

PowersOfTwo == { 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768 }

----------------------------------------------------------------------------
(* What the arguments rely on, checked over all small vectors                *)
CONSTANTS N, D
VARIABLES a, b, x
vars == << a, b, x >>
Dom == (-D)..D
Init == \E n \in 1..N : a \in [1..n -> Dom] /\ b \in [1..n -> Dom] /\ x \in Dom
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Half(v, k) == SubSeq(v, IF k = 0 THEN 1 ELSE Len(v) \div 2 + 1, IF k = 0 THEN Len(v) \div 2 ELSE Len(v))
Bilinear == Dot(Plus(a, Scale(b, x)), b) = Dot(a, b) + x * Dot(b, b) /\ Dot(a, b) = Dot(b, a)
Splits == Len(a) % 2 = 0 =>
  /\ Dot(EvenOnes(a), EvenOnes(b)) + Dot(OddOnes(a), OddOnes(b)) = Dot(a, b)
  /\ Dot(Half(a, 0), Half(b, 0)) + Dot(Half(a, 1), Half(b, 1)) = Dot(a, b)
  /\ Half(a, 0) \o Half(a, 1) = a
Turns == Turned(Turned(a)) = a /\ Dot(Turned(a), Turned(b)) = Dot(a, b)
Inverse == Minus(Plus(a, b), b) = a /\ Plus(a, Negate(b)) = Minus(a, b)
Folds == Len(a) % 2 = 0 =>     \* one round of an inner product argument
  LET l == Half(a, 0) r == Half(a, 1) m == Half(b, 0) s == Half(b, 1) IN
  Dot(Plus(l, Scale(r, x)), Plus(Scale(m, x), s)) = x * Dot(a, b) + Dot(l, s) + x * x * Dot(r, m)
Horner == Dot(a, Series(Len(a), x)) = a[1] + (IF Len(a) = 1 THEN 0 ELSE x * Dot(Tail(a), Series(Len(a) - 1, x)))
Binary == \A S \in SUBSET (0..5) : LET v == BitsOf(S, 6) IN
  /\ Dot(v, Series(6, 2)) < 64 /\ { i - 1 : i \in { j \in 1..6 : v[j] = 1 } } = S
=============================================================================
