------------------------------- MODULE Masks -------------------------------
(* Randomness of sets, vertices and proofs.  Every process draws from its own *)
(* stream; a commitment is its content with a blinding factor, an element of  *)
(* a proof is what it speaks about with a mask.  Nothing random is ever used  *)
(* twice, and nothing is published without.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Processes, Contents, MaxSteps,
          Source,     \* "fresh", or the mistake: "reseeded" (all processes draw the same), "by content", "by set", "one for all", "none at zero"
          Elements    \* masked elements of a proof

VARIABLES drawn,      \* process -> numbers drawn so far
          sets,       \* sequence of [proc, content, nonce]
          proofs,     \* sequence of [set, elems: element -> mask]
          steps
vars == << drawn, sets, proofs, steps >>

None == << "none" >>
Draw(p, k, about) ==
  CASE Source = "fresh" -> << "r", p, drawn[p] + k >>
    [] Source = "reseeded" -> << "r", drawn[p] + k >>
    [] Source = "by content" -> << "c", about >>
    [] Source = "by set" -> << "s", Len(sets), about[1] >>
    [] Source = "one for all" -> << "r", p, drawn[p] + 1 >>       \* drawn anew, but once for all elements
    [] Source = "none at zero" -> IF about[1] = 0 THEN None ELSE << "r", p, drawn[p] + k >>

Init == drawn = [p \in Processes |-> 0] /\ sets = << >> /\ proofs = << >> /\ steps = 0

MakeSet(p, c) == /\ sets' = Append(sets, [proc |-> p, content |-> c, nonce |-> Draw(p, 1, << c, "set" >>)])
                 /\ drawn' = [drawn EXCEPT ![p] = @ + 1] /\ UNCHANGED proofs
Prove(p, i) == /\ sets[i].proc = p
               /\ proofs' = Append(proofs, [set |-> i, elems |-> [e \in 1..Elements |-> Draw(p, e, << sets[i].content, e >>)]])
               /\ drawn' = [drawn EXCEPT ![p] = @ + Elements] /\ UNCHANGED sets
Next == /\ steps < MaxSteps /\ steps' = steps + 1
        /\ \E p \in Processes : (\E c \in Contents : MakeSet(p, c)) \/ \E i \in DOMAIN sets : Prove(p, i)
Spec == Init /\ [][Next]_vars

(* How many independent random numbers hide what an argument is about: one for *)
(* every number that enters the opened combination, one for every commitment.  *)
Need(what, n, m) ==
  LET b == 63 * n IN          \* bits of n amounts
  CASE what = "sum" -> n + 1                                \* w, r'
    [] what = "range" -> (n + 1) + 2 + ((b + n) + b) + 2   \* w r'; nu eta; s t; tau1 tau2
    [] what = "equality" -> 3
    [] what = "equal" -> 3 * m + 2
    [] OTHER -> 0

Published == { << "set", i, sets[i].nonce >> : i \in DOMAIN sets } \cup
             UNION { { << "proof", i, e, proofs[i].elems[e] >> : e \in 1..Elements } : i \in DOMAIN proofs }
Mask(x) == x[Len(x)]
NeverTwice == \A x, y \in Published : Mask(x) = Mask(y) => x = y
NeverBare == \A x \in Published : Mask(x) # None
SetsDiffer == \A i, j \in DOMAIN sets : (i # j /\ sets[i].content = sets[j].content) => sets[i].nonce # sets[j].nonce
=============================================================================
