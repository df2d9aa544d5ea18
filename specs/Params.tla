------------------------------- MODULE Params -------------------------------
(* Public parameters.  A structured reference string publishes powers of a    *)
(* secret in two groups, all that openings need and not the critical one.     *)
(* The argument systems use the same first elements as their commitment base, *)
(* and generators of their own that nobody knows a relation of.               *)
(*                                                                            *)
(* Positions are counted from zero; position -1 is the generator itself.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* exponents of the secret
Exp1(n, k) == IF k = -1 \/ k = n THEN 0 ELSE k + 1
Exp2(n, j) == IF j = -1 THEN 0 ELSE j + 1
Size1(n) == 2 * n
Size2(n) == n
Critical(n) == n + 1

\* Where an opening of slot i finds the power that belongs to slot j
OpeningPos(n, i, j) == n - i + j

\* Smallest power of two, at least two, that is not below x
RECURSIVE Pow2From(_, _)
Pow2From(x, p) == IF p >= x THEN p ELSE Pow2From(x, 2 * p)
Pow2(x) == Pow2From(x, 2)

Bits == 63
Slots(f) == f + 2                 \* children, sum, blinding
Width(f) == f + 1                 \* children, sum
Batch(path) == Pow2(path - 1)     \* pairs of vertices on a path

\* ---- a generation, element by element ---------------------------------------

CONSTANTS MaxN, Mistake
VARIABLES n, pub1, pub2
vars == << n, pub1, pub2 >>

Wrong(k) == CASE Mistake = "critical published" /\ k = n -> n + 1
              [] Mistake = "one too early" /\ k > n -> k
              [] Mistake = "generator at zero" /\ k = 0 -> 0
              [] OTHER -> Exp1(n, k)
End1 == IF Mistake = "cut short" THEN Size1(n) - 1 ELSE Size1(n)

Init == n \in 2..MaxN /\ pub1 = << >> /\ pub2 = << >>
Next == \/ /\ Len(pub1) < End1 /\ pub1' = Append(pub1, Wrong(Len(pub1))) /\ UNCHANGED << n, pub2 >>
        \/ /\ Len(pub1) = End1 /\ Len(pub2) < Size2(n) /\ pub2' = Append(pub2, Exp2(n, Len(pub2))) /\ UNCHANGED << n, pub1 >>
Spec == Init /\ [][Next]_vars

Range(s) == { s[i] : i \in DOMAIN s }
Done == Len(pub1) = End1 /\ Len(pub2) = Size2(n)

\* Nobody can compute the critical power in the first group, hence open a slot
\* to something else; what openings need is there.
Withheld == Critical(n) \notin Range(pub1)
Openable == Done => \A i \in 0..(n - 1) : \A j \in 0..(n - 1) \ {i} :
               LET p == OpeningPos(n, i, j) + 1 IN p \in DOMAIN pub1 /\ pub1[p] = (j + 1) + (n - i)
\* the verifier's pairing moves slot i, and no other, to the critical power
Critically == Done => \A i, j \in 0..(n - 1) : (pub1[j + 1] + pub2[n - i] = Critical(n)) <=> i = j
Committable == Done => \A i, j \in 0..(n - 1) : pub1[i + 1] # 0 /\ (i # j => pub1[i + 1] # pub1[j + 1])
=============================================================================
