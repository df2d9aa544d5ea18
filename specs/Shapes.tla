------------------------------- MODULE Shapes -------------------------------
(* Proofs of other shapes than a verifier expects.  Sub-proofs are verified   *)
(* side by side; each consumes a list, some entries per round, for a number   *)
(* of rounds that the statement fixes.  A verifier that reads beyond the end   *)
(* takes the whole process down, even when the proof was refused already for  *)
(* another reason; one that leaves entries unread accepts proofs anyone can    *)
(* make from others.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Procs,     \* sub-proofs
          Rounds,    \* rounds of each
          Per,       \* entries consumed per round
          Tests      \* subset of {"enough", "rest"}: what sub-verifiers test

VARIABLES list, left, round, state, answer
vars == << list, left, round, state, answer >>

Init == /\ list \in [Procs -> 0..(Per * (Rounds + 1) + 1)]
        /\ left = list
        /\ round = [p \in Procs |-> Rounds]
        /\ state = [p \in Procs |-> "runs"]
        /\ answer = "none"

Read(p) == /\ state[p] = "runs" /\ round[p] > 0
           /\ IF left[p] >= Per
              THEN left' = [left EXCEPT ![p] = @ - Per] /\ round' = [round EXCEPT ![p] = @ - 1] /\ UNCHANGED state
              ELSE state' = [state EXCEPT ![p] = IF "enough" \in Tests THEN "refused" ELSE "crashed"] /\ UNCHANGED << left, round >>
           /\ UNCHANGED << list, answer >>
Last(p) == /\ state[p] = "runs" /\ round[p] = 0
           /\ state' = [state EXCEPT ![p] = IF left[p] > 0 /\ "rest" \in Tests THEN "refused" ELSE "fine"]
           /\ UNCHANGED << list, left, round, answer >>
Refuse == /\ answer = "none" /\ \E p \in Procs : state[p] = "refused"
          /\ answer' = "refused" /\ UNCHANGED << list, left, round, state >>
Accept == /\ answer = "none" /\ \A p \in Procs : state[p] = "fine"
          /\ answer' = "accepted" /\ UNCHANGED << list, left, round, state >>
Next == Refuse \/ Accept \/ \E p \in Procs : Read(p) \/ Last(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Fits == \A p \in Procs : list[p] = Per * Rounds
StaysUp == \A p \in Procs : state[p] # "crashed"
OnlyFitting == answer = "accepted" => Fits
Answers == <>(answer = IF Fits THEN "accepted" ELSE "refused")
=============================================================================
