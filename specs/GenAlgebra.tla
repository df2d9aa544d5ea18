----------------------------- MODULE GenAlgebra -----------------------------
(* Random operands.  Sums of a few equal, opposite and neutral elements are  *)
(* likely, as these are the special cases of group arithmetic.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS D, Lengths
VARIABLE s
Pick(S) == RandomElement(S)
Vector(n, d) == [i \in 1..n |-> IF Pick(1..4) = 1 THEN 0 ELSE Pick((-d)..d)]
Init == s = << >>
Next == /\ s = << >>
        /\ \E n \in {Pick(Lengths)} : \E d \in {Pick({1, D} \cup (IF D > 1 THEN {2} ELSE {}))} :
           \E a \in {TLCEval(Vector(n, d))} :
           \E how \in {Pick({"any", "any", "same", "opposite"})} :
           \E b \in {TLCEval(IF how = "same" THEN a ELSE IF how = "opposite" THEN [i \in 1..n |-> -a[i]] ELSE Vector(n, d))} :
           \E x \in {Pick({-1, 0, 1} \cup ((-d)..d))} :
           \E bits \in {TLCEval([i \in 1..n |-> Pick({0, 1})])} :
           \E ones \in {TLCEval({ Pick(0..70) : k \in 1..Pick(0..6) } \cup Pick({{}, {0}, {62}, {63}, 0..62, 0..63, {253}}))} :
           \E len \in {Pick({0, 1, 8, 62, 63, 64, 65, 80})} :
             s' = << [a |-> a, b |-> b, x |-> x, bits |-> bits, ones |-> SetToSeq(ones), len |-> len] >>
Spec == Init /\ [][Next]_s
Emit == s # << >> => PrintT("SCN" \o ToJson(s[1]))
=============================================================================
