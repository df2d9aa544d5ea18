---------------------------- MODULE AlgebraTrace ----------------------------
(* Judges recorded calls of the vector algebra.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
A == INSTANCE Algebra WITH N <- 1, D <- 0, a <- << >>, b <- << >>, x <- 0
Range(s) == { s[i] : i \in DOMAIN s }

Expected(e) ==
  CASE e.op \in {"Vec.Add", "G1v.Add", "G1v.HadamardProd", "G2v.Add"} -> A!Plus(e.a, e.b)
    [] e.op = "Vec.Sub" -> A!Minus(e.a, e.b)
    [] e.op \in {"Vec.Mul", "G1v.Mul", "G2v.Mul"} -> A!Scale(e.a, e.x)
    [] e.op \in {"Vec.HadamardProd", "G1v.MulV", "G2v.Mulv"} -> A!Times(e.a, e.b)
    [] e.op \in {"Vec.InnerProd", "Vec.Exp", "G1v.InnerProd"} -> << A!Dot(e.a, e.b) >>
    [] e.op = "Vec.Evens" -> A!EvenOnes(e.a)
    [] e.op = "Vec.Odds" -> A!OddOnes(e.a)
    [] e.op = "Vec.Reverse" -> A!Turned(e.a)
    [] e.op = "Vec.Concat" -> e.a \o e.b
    [] e.op = "Vec.PowBitVec" -> A!Chosen(e.a, e.b)
    [] e.op = "Vec.Product" -> << A!Prod(e.a) >>
    [] e.op = "Vec.Zero" -> A!Many(0, Len(e.a))
    [] e.op = "G1v.Neg" -> A!Negate(e.a)
    [] e.op \in {"G1v.Sum", "G2v.Sum"} -> << A!Total(e.a) >>
    [] e.op \in {"G1v.Duplicate", "G2v.Duplicate"} -> A!Many(e.a[1], e.x)
    [] e.op = "NegZr" -> << -e.x >>
    [] e.op = "PowerSeries" -> A!Series(e.b[1], e.x)
    [] e.op = "Pow2" -> << A!Power(2, e.x) >>
    [] e.op = "IntToZr" -> << e.x >>
    \* of the number with ones at the positions a
    [] e.op = "Bits" -> A!BitsOf(Range(e.a), e.x)
    [] e.op = "BitsBigEndian" -> A!Turned(A!BitsOf(Range(e.a), e.x))

Step(e) ==
  CASE e.ev = "call" -> ~e.panic /\ e.intact /\ e.res = Expected(e)
    \* lists that do not fit together are refused
    [] e.ev = "misfit" -> e.panic
    [] e.ev = "powers" -> { n \in Range(e.yes) : n > 1 } = A!PowersOfTwo
    \* digests become scalars: always the same, below the order, different for different digests
    [] e.ev = "scalars" -> e.same /\ e.reduced /\ Cardinality(Range(e.list)) = Len(e.list)
    [] e.ev \in {"begin", "unbuilt"} -> TRUE
    [] OTHER -> FALSE

TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_l
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<< "REJECTED", d >>) /\ FALSE
=============================================================================
