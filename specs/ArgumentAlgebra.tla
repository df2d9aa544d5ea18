--------------------------- MODULE ArgumentAlgebra ---------------------------
(* The equations the verifiers of the arguments check, over a small prime    *)
(* field.  A state is everything a prover fixes before the challenges are    *)
(* drawn (written in the coordinates of the generators, so that the prover   *)
(* is not limited to what the real one would do).  For every such choice,    *)
(* either the statement is true, or the equation holds for no more           *)
(* challenges than its degree permits; and for the choices an honest prover  *)
(* makes it holds for all of them.                                           *)
(*                                                                           *)
(* FiatShamir.tla is about the order of choices and challenges; this module  *)
(* is about the equations themselves.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Prime, Arg

F == 0..(Prime - 1)
NonZero == F \ {0}
M(x) == x % Prime
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE M(x * Pow(x, k - 1))
Inv(x) == Pow(x, Prime - 2)
RECURSIVE SumOf(_)
SumOf(s) == IF s = << >> THEN 0 ELSE Head(s) + SumOf(Tail(s))
Dot(a, b) == M(SumOf([i \in DOMAIN a |-> a[i] * b[i]]))
Tuples(n) == [1..n -> F]

VARIABLE c        \* the prover's choice
vars == << c >>

----------------------------------------------------------------------------
\* sum of one vector: v, w committed to, t claimed for w; <v + x w, b> = t x
SumMask == << 1, 1, Prime - 1 >>
SumChoices == [v : Tuples(3), w : Tuples(3), t : F]
SumGood(x) == Dot([i \in 1..3 |-> c.v[i] + x * c.w[i]], SumMask) = M(c.t * x)
SumTrue == Dot(c.v, SumMask) = 0
SumHonest == SumTrue /\ c.t = Dot(c.w, SumMask)
SumOK == /\ ~SumTrue => Cardinality({ x \in NonZero : SumGood(x) }) <= 1
         /\ SumHonest => \A x \in F : SumGood(x)

\* several vectors that are off by e[1], e[2], ...: weights are powers
SumsChoices == [e : Tuples(4)]
SumsGood(t) == Dot(c.e, << 1, t, Pow(t, 2), Pow(t, 3) >>) = 0
SumsOK == (\E i \in 1..4 : c.e[i] # 0) => Cardinality({ t \in F : SumsGood(t) }) <= 3

----------------------------------------------------------------------------
\* equality of v and w; uv, uw their masks; u, p what the product is made of
\* (one pair; p and u stand for the Pedersen commitments PV and U)
EqualityChoices == [v : F, w : F, uv : F, uw : F, u : F, p : F]
EqualityGood(x, tv, tw) ==
  M((c.v + x * c.uv) * tv + (c.w + x * c.uw) * tw) = M((c.p + x * c.u) * (tv + tw))
EqualityHonest == c.v = c.w /\ c.p = c.v /\ c.uv = c.u /\ c.uw = c.u
\* degree 2 in three variables
EqualityOK == /\ c.v # c.w => Cardinality({ y \in F \X F \X F : EqualityGood(y[1], y[2], y[3]) }) <= 2 * Prime * Prime
              /\ EqualityHonest => \A x, tv, tw \in F : EqualityGood(x, tv, tw)

\* the single argument: the answer is one number, chosen after x, before t
SingleChoices == [v : F, w : F, uv : F, uw : F]
SingleGood(x, a, tv, tw) == M((c.v + x * c.uv) * tv + (c.w + x * c.uw) * tw) = M(a * (tv + tw))
\* challenges x for which some answer survives more than its share of t
SingleOpen(x) == \E a \in F : Cardinality({ t \in F \X F : SingleGood(x, a, t[1], t[2]) }) > Prime
SingleOK == /\ c.v # c.w => Cardinality({ x \in F : SingleOpen(x) }) <= 1
            /\ (c.v = c.w /\ c.uv = c.uw) => \A x \in F : \E a \in F : \A tv, tw \in F : SingleGood(x, a, tv, tw)

----------------------------------------------------------------------------
\* one round of the inner product: vectors << aL, aR >>, << bL, bR >>; the
\* generator coordinates of L and R are the honest ones (any other are refused
\* by the same count, see ipaG), l and r their coordinates of U, k the claim
IpaChoices == [a : Tuples(2), b : Tuples(2), l : F, r : F, k : F]
\* y is the square of the challenge
IpaGood(y) ==
  LET yi == Inv(y) IN
  M(c.l * y + c.k + c.r * yi) = M(c.a[1] * c.b[1] + c.a[2] * c.b[2] + y * M(c.a[1] * c.b[2]) + yi * M(c.a[2] * c.b[1]))
IpaTrue == c.k = Dot(c.a, c.b)
IpaHonest == IpaTrue /\ c.l = M(c.a[1] * c.b[2]) /\ c.r = M(c.a[2] * c.b[1])
IpaOK == /\ ~IpaTrue => Cardinality({ y \in NonZero : IpaGood(y) }) <= 2
         /\ IpaHonest => \A y \in NonZero : IpaGood(y)

\* the coordinates of the two halves of G: P, L, R arbitrary.  The verifier
\* needs some a with  L x^2 + P + R / x^2  =  a (1 / x, x)
IpaGChoices == [P : Tuples(2), L : Tuples(2), R : Tuples(2)]
IpaGGood(y) ==
  LET s(i) == M(c.L[i] * y + c.P[i] + c.R[i] * Inv(y))
  IN M(s(1) * y) = s(2)
IpaGHonest == c.L = << 0, c.P[1] >> /\ c.R = << c.P[2], 0 >>
IpaGOK == /\ ~IpaGHonest => Cardinality({ y \in NonZero : IpaGGood(y) }) <= 3
          /\ IpaGHonest => \A y \in NonZero : IpaGGood(y)

----------------------------------------------------------------------------
\* one round of the reduction: V, A, B arbitrary; the verifier needs
\* A x + B / x + V = u (1, 1 / x)
ReduceChoices == [V : Tuples(2), A : Tuples(2), B : Tuples(2)]
ReducePoint(x) == [i \in 1..2 |-> M(c.A[i] * x + c.B[i] * Inv(x) + c.V[i])]
ReduceGood(x, u) == ReducePoint(x) = << u, M(u * Inv(x)) >>
ReduceHonest == c.A = << c.V[2], 0 >> /\ c.B = << 0, c.V[1] >>
ReduceOK ==
  /\ ~ReduceHonest => Cardinality({ x \in NonZero : \E u \in F : ReduceGood(x, u) }) <= 3
  \* and an honest start leads to the folded value only
  /\ ReduceHonest => \A x \in NonZero, u \in F : ReduceGood(x, u) <=> u = M(c.V[1] + x * c.V[2])

----------------------------------------------------------------------------
\* the digits (two of them): b, their complements h, gap = <digits, powers> - u
\* y1^2 gap + y1 <b + h - 1, y0> + <b h, y0> = 0
RangeChoices == [b : Tuples(2), h : Tuples(2), gap : F]
RangeGood(y0, y1) ==
  M(y1 * y1 * c.gap + y1 * ((c.b[1] + c.h[1] - 1) + (c.b[2] + c.h[2] - 1) * y0) + c.b[1] * c.h[1] + c.b[2] * M(c.h[2] * y0)) = 0
RangeTrue == /\ c.gap = 0
             /\ \A i \in 1..2 : c.b[i] \in {0, 1} /\ M(c.b[i] + c.h[i]) = 1
RangeOK == /\ ~RangeTrue => Cardinality({ y \in F \X F : RangeGood(y[1], y[2]) }) <= 2 * Prime
           /\ RangeTrue => \A y0, y1 \in F : RangeGood(y0, y1)

\* the digits are those of the committed vector: v + x w = digits + x q
LinkChoices == [v : F, w : F, digits : F, q : F]
LinkGood(x) == M(c.v + x * c.w) = M(c.digits + x * c.q)
LinkOK == /\ c.v # c.digits => Cardinality({ x \in F : LinkGood(x) }) <= 1
          /\ (c.v = c.digits /\ c.w = c.q) => \A x \in F : LinkGood(x)

\* c0 is known, C1 and C2 commit to k1 and k2: c0 + k1 z + k2 z^2 = <a, b> where
\* a = a0 + s z, b = b0 + t z (products of vectors written as numbers)
PolyChoices == [a : F, s : F, b : F, t : F, k0 : F, k1 : F, k2 : F]
PolyGood(z) == M(c.k0 + c.k1 * z + c.k2 * z * z) = M((c.a + c.s * z) * (c.b + c.t * z))
PolyTrue == c.k0 = M(c.a * c.b)
PolyHonest == PolyTrue /\ c.k1 = M(c.a * c.t + c.s * c.b) /\ c.k2 = M(c.s * c.t)
PolyOK == /\ ~PolyTrue => Cardinality({ z \in F : PolyGood(z) }) <= 2
          /\ PolyHonest => \A z \in F : PolyGood(z)

----------------------------------------------------------------------------
Choices ==
  CASE Arg = "sum" -> SumChoices [] Arg = "sums" -> SumsChoices
    [] Arg = "equality" -> EqualityChoices [] Arg = "single" -> SingleChoices
    [] Arg = "ipa" -> IpaChoices [] Arg = "ipaG" -> IpaGChoices
    [] Arg = "reduce" -> ReduceChoices [] Arg = "range" -> RangeChoices
    [] Arg = "link" -> LinkChoices [] Arg = "poly" -> PolyChoices

Init == c \in Choices
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Sound ==
  CASE Arg = "sum" -> SumOK [] Arg = "sums" -> SumsOK
    [] Arg = "equality" -> EqualityOK [] Arg = "single" -> SingleOK
    [] Arg = "ipa" -> IpaOK [] Arg = "ipaG" -> IpaGOK
    [] Arg = "reduce" -> ReduceOK [] Arg = "range" -> RangeOK
    [] Arg = "link" -> LinkOK [] Arg = "poly" -> PolyOK
=============================================================================
