------------------------------- MODULE GenVC -------------------------------
(* Random histories of committing, updating, opening and aggregating, with   *)
(* true and false statements presented in between.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS N, NumValues, Handles, MaxOps,
          Sizes     \* numbers of openings of large aggregates

VARIABLES hist, slots, n     \* slots: sequence of [h, i]: openings made so far
vars == << hist, slots, n >>

Pick(S) == RandomElement(S)
Some(p, q) == Pick(1..q) <= p
Exps == (0..(2 * N)) \ {N + 1}
Pos == 0..(N - 1)

Commit(h) == [op |-> "commit", h |-> h, vals |-> [k \in 1..N |-> IF Some(1, 3) THEN 1 ELSE Pick(1..NumValues)]]

\* The noise added to the opening cancels the noise added to the commitment
Cancel(S, i) == { x + N - i : x \in S } \cap Exps

\* Positions that look the same if some bits are ignored
RECURSIVE Powers(_)
Powers(m) == IF m <= 1 THEN {} ELSE { 2^k : k \in { k \in 0..15 : 2^k < m } }
Alike(i) == ({ i + d : d \in Powers(N) } \cup { i - d : d \in Powers(N) }) \cap Pos
OtherPos(i) == IF Some(1, 2) THEN Pick(Pos) ELSE Pick(Alike(i) \cup {i})

\* TLC evaluates a LET definition anew wherever it is used, so every draw is
\* bound by a quantifier over a singleton.
Act(op) == hist' = Append(hist, op)

Verify ==
  \E k \in {Pick(DOMAIN slots)} :
  \E h \in {IF Some(1, 6) THEN Pick(Handles) ELSE slots[k].h} :
  \E i \in {IF Some(1, 6) THEN OtherPos(slots[k].i) ELSE slots[k].i} :
  \E cn \in {IF Some(1, 4) THEN {Pick(Exps)} ELSE {}} :
  \E pn \in {IF Some(1, 8) THEN {Pick(Exps)} ELSE IF Some(4, 5) THEN Cancel(cn, i) ELSE {}} :
  \* the noise of the commitment falls on the opened entry
  \E plus \in {IF Some(1, 8) THEN 1 ELSE IF cn = {i + 1} THEN 1 ELSE 0} :
  \E claim \in {IF Some(1, 6) /\ cn = {} THEN Pick(1..NumValues) ELSE IF Some(1, 3) THEN -1 ELSE 0} :  \* -1 current, 0 as opened
  \E rep \in {Pick({"", "neg", "big"})} :
    Act([op |-> "verify", h |-> h, i |-> i, slot |-> k, cnoise |-> SetToSeq(cn), pnoise |-> SetToSeq(pn), plus |-> plus, claim |-> claim, rep |-> rep])

Swap(s, i, j) == [k \in DOMAIN s |-> IF k = i THEN s[j] ELSE IF k = j THEN s[i] ELSE s[k]]

Aggregate ==
  \E m \in {Pick(1..5)} :
  \E ks \in {TLCEval([k \in 1..m |-> Pick(DOMAIN slots)])} :
  \E d \in {Pick(1..m)} : \E f \in {Pick(1..m)} :
  \E what \in {Pick({"none", "none2", "none3", "h", "i", "slot", "claim", "plus", "cn", "pn", "cancel", "order", "roOrder", "sigmaOrder", "all"})} :
  \E x \in {Pick(Exps)} : \E h \in {Pick(Handles)} : \E i \in {OtherPos(slots[ks[d]].i)} : \E slot \in {Pick(DOMAIN slots)} : \E v \in {Pick(1..NumValues)} :
  LET honest == [k \in 1..m |-> slots[ks[k]].h]
      idx == [k \in 1..m |-> slots[ks[k]].i]
  IN Act([op |-> "agg",
      hs |-> IF what = "h" THEN [honest EXCEPT ![d] = h]
             ELSE IF what \in {"order", "all"} THEN Swap(honest, d, f) ELSE honest,
      is |-> IF what = "i" THEN [idx EXCEPT ![d] = i] ELSE IF what = "all" THEN Swap(idx, d, f) ELSE idx,
      slots |-> IF what = "slot" THEN [ks EXCEPT ![d] = slot] ELSE IF what = "all" THEN Swap(ks, d, f) ELSE ks,
      aggOver |-> IF what = "roOrder" THEN Swap(honest, d, f) ELSE IF what = "h" THEN honest ELSE << >>,     \* << >>: the same list
      sigmaOver |-> IF what = "sigmaOrder" THEN Swap(honest, d, f) ELSE << >>,
      claims |-> [k \in 1..m |-> IF what = "claim" /\ k = d THEN v ELSE 0],
      plus |-> [k \in 1..m |-> IF what = "plus" /\ k = d THEN 1 ELSE 0],
      cnoise |-> [k \in 1..m |-> IF what \in {"cn", "cancel"} /\ k = d THEN << x >> ELSE << >>],
      pnoise |-> [k \in 1..m |-> IF what = "pn" /\ k = d THEN << x >>
                                 ELSE IF what = "cancel" /\ k = d THEN SetToSeq(Cancel({x}, idx[d])) ELSE << >>]])

\* Many openings, two of whose claims are exchanged.  Weights that are computed
\* from too few bits of a position coincide at the distance of a power of two.
Many ==
  \E m \in {Pick(Sizes)} :
  \E ks \in {TLCEval([k \in 1..m |-> Pick(DOMAIN slots)])} :
  \E dist \in {IF Some(4, 5) THEN Pick(Powers(m)) ELSE Pick(1..(m - 1))} :
  \E d \in {Pick(1..(m - dist))} :
  \E x \in {IF Some(1, 8) THEN << >> ELSE << d, d + dist >>} :
  Act([op |-> "agg",
      hs |-> [k \in 1..m |-> slots[ks[k]].h], is |-> [k \in 1..m |-> slots[ks[k]].i], slots |-> ks,
      aggOver |-> << >>, sigmaOver |-> << >>, exchanged |-> x,
      claims |-> [k \in 1..m |-> 0], plus |-> [k \in 1..m |-> 0], cnoise |-> [k \in 1..m |-> << >>], pnoise |-> [k \in 1..m |-> << >>]])

Init == hist = << >> /\ slots = << >> /\ n = 0
Next ==
  /\ n < MaxOps + Cardinality(Handles)
  /\ n' = n + 1
  /\ IF n < Cardinality(Handles) THEN Act(Commit(n + 1)) /\ UNCHANGED slots
     ELSE \E k \in {IF slots = << >> \/ (Sizes # {} /\ Len(slots) < 8) THEN 3 ELSE Pick(1..14)} : \E h \in {Pick(Handles)} : \E i \in {Pick(Pos)} :
     CASE k = 1 -> Act(Commit(h)) /\ UNCHANGED slots
       [] k = 2 -> Act([op |-> "update", h |-> h, i |-> i, v |-> Pick(1..NumValues)]) /\ UNCHANGED slots
       [] k \in {3, 4, 5} -> Act([op |-> "open", h |-> h, i |-> i]) /\ slots' = Append(slots, [h |-> h, i |-> i])
       [] k > 5 /\ Sizes # {} -> Many /\ UNCHANGED slots
       [] k \in 6..9 -> Verify /\ UNCHANGED slots
       [] OTHER -> Aggregate /\ UNCHANGED slots
Spec == Init /\ [][Next]_vars
Emit == n = MaxOps + Cardinality(Handles) => PrintT("SCN" \o ToJson(hist))
=============================================================================
