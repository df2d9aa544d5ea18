------------------------- MODULE VectorCommitment --------------------------
(* The vector commitment of pp/, in the algebraic group model: a group       *)
(* element is the polynomial (in the trapdoor) whose value is its discrete   *)
(* logarithm, and everybody, cheating provers included, can only form linear *)
(* combinations of the published powers.                                     *)
(*                                                                           *)
(* TLC goes through every element C a prover could publish and every claim   *)
(* about it, over a small field, and checks that honest openings verify,     *)
(* that no C opens to two values at one position (Binding), that an in-place *)
(* update is the commitment of the updated vector, that openings of false    *)
(* claims disappear in an aggregate only for a vanishing part of the         *)
(* challenges (Aggregation).  With the critical power published (Withheld =  *)
(* FALSE) Binding is refuted.                                                *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS N,        \* length of vectors
          P,        \* the field has P elements
          Withheld, \* TRUE: the power N+1 is not published
          Pairs     \* TRUE: also aggregates of two openings

F == 0..(P - 1)
Exps == (0..(2 * N)) \ (IF Withheld THEN {N + 1} ELSE {})
Elements == [Exps -> F]
Vectors == [1..N -> F]

Coef(f, e) == IF e \in DOMAIN f THEN f[e] ELSE 0
Commit(m) == [e \in Exps |-> IF e \in 1..N THEN m[e] ELSE 0]

\* Positions are 1..N.  A claim (C, i, x) leaves exactly one possible opening
\* C * X^(N+1-i) - x * X^(N+1): it must be an element a prover can form.
Needed(C, i, x) == [e \in 0..(3 * N) |-> (Coef(C, e - (N + 1 - i)) + P - (IF e = N + 1 THEN x ELSE 0)) % P]
Formable(f) == \A e \in DOMAIN f : f[e] = 0 \/ e \in Exps
Openable(C, i, x) == Formable(Needed(C, i, x))

\* What Open computes
Opening(m, i) == [e \in Exps |-> IF e - (N + 1 - i) \in (1..N) \ {i} THEN m[e - (N + 1 - i)] ELSE 0]
Verifies(C, i, x, o) == \A e \in 0..(3 * N) : Coef(o, e) = Needed(C, i, x)[e]

Updated(C, m, i, x) == [C EXCEPT ![i] = (@ + P - m[i] + x) % P]

\* Two claims aggregated with challenges t, u
Aggregate(C, i, x, D, j, y, t, u) ==
  [e \in 0..(3 * N) |-> (t * Coef(C, e - (N + 1 - i)) + u * Coef(D, e - (N + 1 - j))
                          + P * P * 2 - (IF e = N + 1 THEN t * x + u * y ELSE 0)) % P]

VARIABLES C, i, D, j, y, done
vars == << C, i, D, j, y, done >>
Unused == [e \in Exps |-> 0]
Init == /\ C \in Elements /\ i \in 1..N /\ D = Unused /\ j = 1 /\ y = 0 /\ done = FALSE
\* a second claim, about an honest commitment or about anything
Next == /\ ~done /\ Pairs
        /\ done' = TRUE
        /\ D' \in Elements /\ j' \in 1..N /\ y' \in F
        /\ UNCHANGED << C, i >>
Spec == Init /\ [][Next]_vars

Binding == Cardinality({ x \in F : Openable(C, i, x) }) <= 1

\* C is a commitment to at most one vector
IsCommit == \A e \in Exps \ (1..N) : C[e] = 0
VectorOf == [k \in 1..N |-> C[k]]
Honest == IsCommit /\ ~done =>
  /\ \A x \in F : Verifies(C, i, x, Opening(VectorOf, i)) <=> x = VectorOf[i]
  /\ \A k \in 1..N : Verifies(C, k, VectorOf[i], Opening(VectorOf, i)) => Opening(VectorOf, i) = Opening(VectorOf, k) /\ VectorOf[i] = VectorOf[k]
  /\ \A x \in F : Updated(C, VectorOf, i, x) = Commit([VectorOf EXCEPT ![i] = x])

Aggregation == done =>
  \A x \in F : ~(Openable(C, i, x) /\ Openable(D, j, y)) =>
     Cardinality({ tu \in F \X F : Formable(Aggregate(C, i, x, D, j, y, tu[1], tu[2])) }) <= P
AggregationComplete == done =>
  \A x \in F : (Openable(C, i, x) /\ Openable(D, j, y)) =>
     \A t, u \in F : Formable(Aggregate(C, i, x, D, j, y, t, u))
=============================================================================
