------------------------------ MODULE VCTrace ------------------------------
(* Judges recorded verdicts of the vector commitment.  Everything is a set   *)
(* of monomials, as in VectorCommitment: an entry x of a vector at exponent  *)
(* e is << e, "v", x >>, an element added by the scenario is << e, "n" >>.   *)
(* An equation holds, for a random trapdoor and random challenges, exactly   *)
(* if both sides are the same set.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Watch    \* subset of {"single", "aggregate"}

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, vecs, proofs, len
vars == << l, vecs, proofs, len >>

Rng(s) == { s[k] : k \in DOMAIN s }
Put1(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
N == len
Judge(x, Q) == x \in Watch => Q

\* C at position i (from 0), times the power that moves entry i to N+1
Shifted(vec, noise, i) == { << e + N - i, "v", vec[e] >> : e \in { k \in 1..N : vec[k] # "0" } }
                          \cup { << e + N - i, "n" >> : e \in Rng(noise) }
\* the opening of position i
Opening(vec, noise, i) == { << e + N - i, "v", vec[e] >> : e \in { k \in (1..N) \ {i + 1} : vec[k] # "0" } }
                          \cup { << e, "n" >> : e \in Rng(noise) }
Claim(x, plus) == (IF x = "0" THEN {} ELSE { << N + 1, "v", x >> }) \cup (IF plus = 0 THEN {} ELSE { << N + 1, "n" >> })

TNew(e) == len' = e.n /\ vecs' = [x \in {} |-> << >>] /\ proofs' = << >>
TCommit(e) == e.ok /\ vecs' = Put1(vecs, e.h, e.vec) /\ UNCHANGED << proofs, len >>
\* an update in place: the new element commits to the updated vector
TUpdate(e) == /\ Judge("single", e.ok)
              /\ vecs' = [vecs EXCEPT ![e.h] = [@ EXCEPT ![e.i + 1] = e.v]] /\ UNCHANGED << proofs, len >>
TOpen(e) == /\ Judge("single", e.value = vecs[e.h][e.i + 1] /\ ~e.panic)
            /\ proofs' = Append(proofs, [vec |-> vecs[e.h], i |-> e.i]) /\ UNCHANGED << vecs, len >>
TVerify(e) ==
  /\ Judge("single",
       LET p == proofs[e.slot] IN
       e.ok <=> Shifted(vecs[e.h], e.cnoise, e.i) = Opening(p.vec, e.pnoise, p.i) \cup Claim(e.claim, e.plus))
  /\ UNCHANGED << vecs, proofs, len >>

\* Aggregates: the challenge of entry j of a list L of commitments is a fresh
\* symbol << L, j >>
Elem(h, noise) == << vecs[h], noise >>
List(hs, noises) == [k \in DOMAIN hs |-> Elem(hs[k], noises[k])]
Times(S, t) == { << m, t >> : m \in S }
TAgg(e) ==
  /\ Judge("aggregate",
       LET m == Len(e.hs)
           L == List(e.hs, e.cnoise)
           none == [k \in 1..m |-> << >>]
           A == IF e.aggOver = << >> THEN L ELSE List(e.aggOver, none)
           S == IF e.sigmaOver = << >> THEN L ELSE List(e.sigmaOver, none)
           \* lists by number: equal lists have equal challenges
           idL == 1
           idA == IF A = L THEN 1 ELSE 2
           idS == IF S = L THEN 1 ELSE IF S = A THEN 2 ELSE 3
           left == UNION { Times(Shifted(vecs[e.hs[k]], e.cnoise[k], e.is[k]), << idL, k >>) : k \in 1..m }
           right == UNION { Times(Opening(proofs[e.slots[k]].vec, e.pnoise[k], proofs[e.slots[k]].i), << idA, k >>) : k \in 1..m }
                    \cup UNION { Times(Claim(e.claims[k], e.plus[k]), << idS, k >>) : k \in 1..m }
       IN e.ok <=> left = right)
  /\ UNCHANGED << vecs, proofs, len >>
\* altered aggregates and lists of different lengths
TAltered(e) == Judge("aggregate", ~e.ok) /\ UNCHANGED << vecs, proofs, len >>

Step(e) ==
  CASE e.ev = "new" -> TNew(e)
    [] e.ev = "commit" -> TCommit(e)
    [] e.ev = "update" -> TUpdate(e)
    [] e.ev = "open" -> TOpen(e)
    [] e.ev = "verify" -> TVerify(e)
    [] e.ev = "agg" -> TAgg(e)
    [] e.ev = "altered" -> TAltered(e)
    \* weights of different aggregates (Grinding.tla): they differ and are of full size
    [] e.ev = "challenges" -> Judge("aggregate", Cardinality({ e.list[k] : k \in DOMAIN e.list }) = Len(e.list) /\ e.full) /\ UNCHANGED << vecs, proofs, len >>
    [] e.ev \in {"begin", "unbuilt"} -> UNCHANGED << vecs, proofs, len >>
    [] OTHER -> FALSE

TInit == l = 1 /\ vecs = [x \in {} |-> << >>] /\ proofs = << >> /\ len = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_vars
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<< "REJECTED", d >>) /\ FALSE
=============================================================================
