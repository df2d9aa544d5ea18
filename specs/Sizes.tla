------------------------------- MODULE Sizes -------------------------------
(* The size reported for a structure: that of all it is made of.  Pieces are  *)
(* given in groups: n pieces of the same length, "fresh" of which have not    *)
(* been counted with an earlier group.  Parts of public parameters share      *)
(* pieces, and those are transmitted once; a proof is transmitted as it is.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Add(_)
Add(xs) == IF xs = << >> THEN 0 ELSE Head(xs) + Add(Tail(xs))
Bytes(p, shared) == p.len * (IF shared THEN p.fresh ELSE p.n)
Total(parts, shared) == Add([k \in DOMAIN parts |-> Bytes(parts[k], shared)])

----------------------------------------------------------------------------
(* How sizes are computed: every component adds up its own elements and its   *)
(* components' sizes; what is shared is subtracted again.  TLC checks that    *)
(* this is exact, and that it is not with each of the mistakes.               *)
CONSTANTS Ids, Mistake
VARIABLES own, left, right         \* a structure with two components, each a set of pieces
vars == << own, left, right >>
Init == own \in SUBSET Ids /\ left \in SUBSET Ids /\ right \in SUBSET Ids
        /\ own \cap (left \cup right) = {}
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Size(S) == Cardinality(S)
Reported ==
  CASE Mistake = "none" -> Size(own) + Size(left) + Size(right) - Size(left \cap right)
    [] Mistake = "component left out" -> Size(own) + Size(left)
    [] Mistake = "shared counted twice" -> Size(own) + Size(left) + Size(right)
    [] Mistake = "shared subtracted twice" -> Size(own) + Size(left) + Size(right) - 2 * Size(left \cap right)
\* the pieces in groups, as the harness reports them
Groups == << [len |-> 1, n |-> Size(own), fresh |-> Size(own)],
             [len |-> 1, n |-> Size(left), fresh |-> Size(left)],
             [len |-> 1, n |-> Size(right), fresh |-> Size(right \ left)] >>
Exact == Reported = Total(Groups, TRUE) /\ (Reported = Total(Groups, FALSE) <=> left \cap right = {})
=============================================================================
