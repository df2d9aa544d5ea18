------------------------------ MODULE Grinding ------------------------------
(* A prover who can change what a challenge is derived from without changing *)
(* what it wants to prove gets a new challenge as often as it likes.  It      *)
(* wins if one of them is the challenge it prepared for (Goal).               *)
(*                                                                           *)
(* A state is what an ideal hash answers to T tries when challenges come from *)
(* a space of size S.  TLC counts: at most T/S of all hashes let the prover   *)
(* win (Bound), so the space has to be large; and if the space is not larger  *)
(* than about the square of the number of challenges looked at, some of them  *)
(* are the same (Repeats): full-size challenges never repeat.                 *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS S, T, Goal

VARIABLE hash
Space == 0..(S - 1)
Hashes == [1..T -> Space]
Init == hash \in Hashes
Next == FALSE /\ UNCHANGED hash
Spec == Init /\ [][Next]_hash

Wins(h) == \E k \in 1..T : h[k] = Goal
Repeats(h) == \E j, k \in 1..T : j < k /\ h[j] = h[k]

ASSUME Bound == Cardinality({ h \in Hashes : Wins(h) }) * S <= T * Cardinality(Hashes)
\* looking at T challenges, more than half of the hashes show repetitions when T(T-1) >= 2S
ASSUME Shows == T * (T - 1) >= 2 * S => 2 * Cardinality({ h \in Hashes : Repeats(h) }) >= Cardinality(Hashes)
\* what never repeats has at least as many values as tries
Pigeonhole == ~Repeats(hash) => S >= T
\* in a space as small as the number of tries, winning is likely
ASSUME Likely == T >= S => 2 * Cardinality({ h \in Hashes : Wins(h) }) >= Cardinality(Hashes)
=============================================================================
