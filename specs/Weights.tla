------------------------------ MODULE Weights ------------------------------
(* Claims about many objects are checked together: each claim has an error   *)
(* (0 if it is true) and a weight, and the combination is accepted exactly   *)
(* if the weighted errors add up to 0.                                       *)
(*                                                                           *)
(* A state is a pair of positions a < b that differ in one bit.  TLC checks  *)
(* that errors of +1 at a and -1 at b go unnoticed exactly if both have the  *)
(* same weight (Exposes), that some such pair exists for every way of        *)
(* computing weights from some bits of the position only (Covers), and that  *)
(* random weights hide an error with probability 1/P (Sound).  The harness   *)
(* proves false statements with these errors against the real verifiers.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS K,      \* number of weights
          P       \* size of the field; 0: only the pairs

VARIABLES a, b
vars == << a, b >>
Pos == 0..(K - 1)
Bits == { j \in 0..15 : 2^j < K }
Bit(x, j) == (x \div 2^j) % 2
Init == \E j \in Bits : a \in { x \in Pos : Bit(x, j) = 0 /\ x + 2^j < K } /\ b = a + 2^j
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

F == 0..(P - 1)
Vectors == [Pos -> F]
RECURSIVE Total(_, _, _)
Total(w, e, k) == IF k < 0 THEN 0 ELSE (w[k] * e[k] + Total(w, e, k - 1)) % P
Accepted(w, e) == Total(w, e, K - 1) = 0
Error(x, y) == [k \in Pos |-> IF k = x THEN 1 ELSE IF k = y THEN P - 1 ELSE 0]

Exposes == P > 0 => \A w \in Vectors : Accepted(w, Error(a, b)) <=> w[a] = w[b]
Sound == P > 0 => \A e \in Vectors : (\E k \in Pos : e[k] # 0) => Cardinality({ w \in Vectors : Accepted(w, e) }) * P = Cardinality(Vectors)

\* Ways of weighing with one random t: what errors do they miss whatever t is?
RECURSIVE Power(_, _)
Power(t, k) == IF k = 0 THEN 1 ELSE (t * Power(t, k - 1)) % P
Powers(t) == [k \in Pos |-> Power(t, k)]
Line(t) == [k \in Pos |-> (1 + k * t) % P]
Wrong == { e \in Vectors : \E k \in Pos : e[k] # 0 }
\* powers of t: an error is missed by at most K - 1 values of t
PowersExpose == P >= K => \A e \in Wrong : Cardinality({ t \in F : Accepted(Powers(t), e) }) < K
\* t, 2t, 3t, ... of three claims or more: some errors are missed by all, and
\* samples of the weights show which (they are orthogonal to all samples)
LinesHide == P > 0 /\ K >= 3 => \E e \in Wrong : \A t \in F : Accepted(Line(t), e)

\* Weights computed from the bits in B only
Masked(x, B) == [j \in Bits |-> IF j \in B THEN Bit(x, j) ELSE 0]
Covers == \A j \in Bits : \A B \in SUBSET (Bits \ {j}) : Bit(a, j) # Bit(b, j) => Masked(a, B) = Masked(b, B)
ASSUME \A j \in Bits : \E x \in Pos : Bit(x, j) = 0 /\ x + 2^j < K

Emit == PrintT("SCN" \o ToJson(<< a, b >>))
=============================================================================
