----------------------------- MODULE Sharing -----------------------------
(* Provers and verifiers at work at the same time on shared parameters,       *)
(* proofs and a stored set.                                                   *)
(*                                                                           *)
(* A verification is a process that reads the parts of the proof one by one   *)
(* (each part is checked against the statement) and starts one helper per     *)
(* layer whose findings it collects before it answers.  A proof is made by    *)
(* one helper per layer, each filling in its own part; the prover returns     *)
(* when all have.  The specification has them only read what is shared; the   *)
(* constants bring in the ways in which an implementation can go wrong, and   *)
(* each of them is refuted.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Verifiers,      \* processes
          Layers,         \* number of layers
          Rewrites,       \* a verifier stores what it derives from its statement in the proof
          Scratch,        \* helpers use one shared scratch value
          NoJoin,         \* answers do not wait for the helpers
          ProverOn        \* a prover is at work as well

Right == 1
Statements == {1, 2}

VARIABLES part,       \* the shared proof: layer -> value the layer was made for
          scratch,    \* a shared scratch value
          pc, stmt, at, bad, asked,      \* of each verifier
          hpc, htmp,  \* of each helper <<verifier, layer>>
          answers,    \* what was answered: set of <<statement, verdict>>
          made, mpc, published           \* the prover: parts filled in, helpers done, returned proof
vars == << part, scratch, pc, stmt, at, bad, asked, hpc, htmp, answers, made, mpc, published >>

L == 1..Layers
Init ==
  /\ part = [i \in L |-> Right] /\ scratch = 0
  /\ pc = [v \in Verifiers |-> "idle"] /\ stmt = [v \in Verifiers |-> 0]
  /\ at = [v \in Verifiers |-> 0] /\ bad = [v \in Verifiers |-> FALSE]
  /\ asked = [v \in Verifiers |-> 0]
  /\ hpc = [h \in Verifiers \X L |-> "off"] /\ htmp = [h \in Verifiers \X L |-> 0]
  /\ answers = {}
  /\ made = [i \in L |-> 0] /\ mpc = [i \in L |-> "off"] /\ published = "no"

prover == << made, mpc, published >>

Start(v) ==
  /\ pc[v] = "idle" /\ asked[v] < 2
  /\ \E s \in Statements :
       /\ stmt' = [stmt EXCEPT ![v] = s]
       /\ part' = IF Rewrites THEN [part EXCEPT ![1] = s] ELSE part
  /\ pc' = [pc EXCEPT ![v] = "reading"] /\ at' = [at EXCEPT ![v] = 1]
  /\ bad' = [bad EXCEPT ![v] = FALSE] /\ asked' = [asked EXCEPT ![v] = @ + 1]
  /\ hpc' = [h \in DOMAIN hpc |-> IF h[1] = v THEN "run" ELSE hpc[h]]
  /\ UNCHANGED << scratch, htmp, answers, prover >>

\* a helper derives a value from its layer and compares it
HelperRead(v, i) ==
  /\ hpc[<< v, i >>] = "run"
  /\ LET d == IF part[i] = stmt[v] THEN 1 ELSE 2 IN
     IF Scratch THEN scratch' = d /\ UNCHANGED htmp
     ELSE htmp' = [htmp EXCEPT ![<< v, i >>] = d] /\ UNCHANGED scratch
  /\ hpc' = [hpc EXCEPT ![<< v, i >>] = "compare"]
  /\ UNCHANGED << part, pc, stmt, at, bad, asked, answers, prover >>

HelperCompare(v, i) ==
  /\ hpc[<< v, i >>] = "compare"
  /\ LET x == IF Scratch THEN scratch ELSE htmp[<< v, i >>] IN
     bad' = [bad EXCEPT ![v] = @ \/ x # 1]
  /\ hpc' = [hpc EXCEPT ![<< v, i >>] = "done"]
  /\ UNCHANGED << part, scratch, pc, stmt, at, asked, htmp, answers, prover >>

Read(v) ==
  /\ pc[v] = "reading" /\ at[v] <= Layers
  /\ bad' = [bad EXCEPT ![v] = @ \/ (at[v] = 1 /\ Layers = 1 /\ part[1] # stmt[v])]
  /\ at' = [at EXCEPT ![v] = @ + 1]
  /\ UNCHANGED << part, scratch, pc, stmt, asked, hpc, htmp, answers, prover >>

Answer(v) ==
  /\ pc[v] = "reading" /\ at[v] > Layers
  /\ NoJoin \/ \A i \in L : hpc[<< v, i >>] = "done"
  /\ answers' = answers \cup {<< stmt[v], ~bad[v] >>}
  /\ pc' = [pc EXCEPT ![v] = "idle"]
  /\ hpc' = [h \in DOMAIN hpc |-> IF h[1] = v THEN "off" ELSE hpc[h]]
  /\ UNCHANGED << part, scratch, stmt, at, bad, asked, htmp, prover >>

\* the prover
Begin == /\ ProverOn /\ published = "no" /\ \A i \in L : mpc[i] = "off"
         /\ mpc' = [i \in L |-> "run"]
         /\ UNCHANGED << part, scratch, pc, stmt, at, bad, asked, hpc, htmp, answers, made, published >>
Fill(i) == /\ mpc[i] = "run"
           /\ made' = [made EXCEPT ![i] = Right] /\ mpc' = [mpc EXCEPT ![i] = "done"]
           /\ UNCHANGED << part, scratch, pc, stmt, at, bad, asked, hpc, htmp, answers, published >>
Publish == /\ published = "no" /\ \A i \in L : mpc[i] # "off"
           /\ NoJoin \/ \A i \in L : mpc[i] = "done"
           /\ published' = IF \A i \in L : made[i] = Right THEN "complete" ELSE "incomplete"
           /\ UNCHANGED << part, scratch, pc, stmt, at, bad, asked, hpc, htmp, answers, made, mpc >>

Next == \/ \E v \in Verifiers : Start(v) \/ Read(v) \/ Answer(v) \/ \E i \in L : HelperRead(v, i) \/ HelperCompare(v, i)
        \/ Begin \/ Publish \/ \E i \in L : Fill(i)
Spec == Init /\ [][Next]_vars

\* Whatever the interleaving: the proof stays, the verdict is that of the statement
Unchanged == \A i \in L : part[i] = Right
Verdicts == \A a \in answers : a[2] <=> a[1] = Right
Complete == published # "incomplete"
=============================================================================
