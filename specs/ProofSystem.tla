--------------------------- MODULE ProofSystem ----------------------------
(* The liability proof of pol/pol.go, seen as the conjunction of the tests   *)
(* its verifier makes, against a prover that may show anything.              *)
(*                                                                           *)
(* A published root fixes one chain of vertices for every path (hashes and   *)
(* commitments bind).  An attempt is everything a prover chooses: what it    *)
(* publishes, the vertex it shows at every layer, what the digests say, what *)
(* the opening was made from, and the amount it claims.  Every sub-proof is  *)
(* accepted exactly if the relation it is for holds of what is shown: that   *)
(* is what properties C09-C15 say about them.                                *)
(*                                                                           *)
(* TLC checks over all attempts that acceptance is the same as the statement *)
(* (Exact), that an attempt stopped by just one test is a false statement,   *)
(* so that the test is needed, and prints those attempts (Emit): they are    *)
(* replayed against the real verifier, in several concrete ways each.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth,      \* number of layers, at least 2
          Bound,      \* amounts lie in 0..Bound-1
          MaxDev,     \* at most so many vertices differ from the honest tree's
          Claims, Lens\* claims and list lengths explored

Layers == 0..(Depth - 1)
Values == (-1)..Bound

(* A vertex shows the value on the path, the total of all other values and   *)
(* the sum.  "mask" distinguishes vertices with equal content: 1 has another *)
(* blinding factor, 2 has the very same V but another W.                     *)
VertexSet == [a : Values, b : Values, s : Values, mask : {0, 1, 2}]

\* The honest tree, in which every other value is 0 or 1
HonestVertex(i) == [a |-> 1, b |-> 0, s |-> 1, mask |-> 0]

(* An attempt:                                                               *)
(*  pub    what the published root is: "honest" (the root of the honest      *)
(*         tree) or "own" (the prover publishes the chain it shows)          *)
(*  v      the vertex shown at each layer                                    *)
(*  w0     the W shown for the root: the published one, or one that commits  *)
(*         to the shown child                                                *)
(*  dig    "shown": the proof's digests are those of the shown vertices;     *)
(*         "opened": they are what the commitments open to                   *)
(*  sig    whether the aggregate is computed from "shown" or "opened" digests*)
(*  len    lengths of the lists: "right", "short", "long"                    *)
(*  claim  the amount claimed                                                *)
(*  odd    something peculiar about a chain the prover publishes:            *)
(*         "bare": W of that layer commits to no digests at all;             *)
(*         "twin": the vertex of that layer is the very one above it;        *)
(*         "void": the vertex of that layer is empty, V being neutral, and   *)
(*         not what is committed to above                                    *)
Odds == { << "none", 0 >> } \cup { << "bare", i >> : i \in 0..(Depth - 2) } \cup { << k, i >> : k \in {"twin", "void"}, i \in 1..(Depth - 1) }
Attempts ==
  [pub : {"honest", "own"}, v : [Layers -> VertexSet], w0 : {"published", "shown"},
   dig : {"shown", "opened"}, sig : {"shown", "opened"}, claim : Values,
   len : {"right", "short", "long"}, odd : Odds]

\* What no shown vertex is
Nothing == [a |-> -2, b |-> -2, s |-> -2, mask |-> 0]

\* Which vertex does W of layer i-1, as shown, commit to for layer i?
\* The honest root commits to the honest child; a W made by the prover commits
\* to the vertex it shows; below a replaced vertex everything is the prover's.
Committed(t, i) ==
  IF t.odd \in { << "bare", i - 1 >>, << "twin", i >>, << "void", i >> } THEN Nothing
  ELSE IF t.pub = "own" THEN t.v[i]
  ELSE IF i = 1 THEN IF t.w0 = "published" THEN HonestVertex(1) ELSE t.v[1]
  ELSE IF t.v[i - 1] = HonestVertex(i - 1) THEN HonestVertex(i) ELSE t.v[i]

Forked(t, i) == Committed(t, i) # t.v[i]         \* shown is not what is committed
AnyFork(t) == \E i \in 1..(Depth - 1) : Forked(t, i)

InRange(x) == x \in 0..(Bound - 1)

\* The tests, and for which attempts they fail
Tests == { << k, 0 >> : k \in {"rootV", "rootW", "lengths", "sigma", "opening", "claim"} }
         \cup { << "link", i >> : i \in 1..(Depth - 1) }
         \cup { << "equal", i >> : i \in 0..(Depth - 2) }
         \cup { << k, i >> : k \in {"range", "sum"}, i \in Layers }

Fails(t, k) ==
  CASE k[1] = "rootV"   -> t.pub = "honest" /\ t.v[0] # HonestVertex(0)
    [] k[1] = "rootW"   -> t.pub = "honest" /\ t.w0 = "shown" /\ t.v[1] # HonestVertex(1)
    [] k[1] = "lengths" -> t.len # "right"
    [] k[1] = "sigma"   -> t.dig # t.sig /\ AnyFork(t)
    [] k[1] = "opening" -> t.sig = "shown" /\ AnyFork(t)
    [] k[1] = "claim"   -> t.claim # t.v[Depth - 1].a
    [] k[1] = "link"    -> t.dig = "opened" /\ Forked(t, k[2])
    [] k[1] = "equal"   -> t.v[k[2]].a # t.v[k[2] + 1].s
    [] k[1] = "sum"     -> t.v[k[2]].a + t.v[k[2]].b # t.v[k[2]].s
    [] k[1] = "range"   -> ~(InRange(t.v[k[2]].a) /\ InRange(t.v[k[2]].b) /\ InRange(t.v[k[2]].s))

Failing(t) == { k \in Tests : Fails(t, k) }
Accepts(t) == Failing(t) = {}

\* What acceptance must mean
TrueChain(t) == t.pub = "honest" => \A i \in Layers : t.v[i] = HonestVertex(i)
Meaningful(t) ==
  /\ TrueChain(t)
  /\ t.len = "right"
  /\ \A i \in Layers : /\ t.v[i].a + t.v[i].b = t.v[i].s
                       /\ InRange(t.v[i].a) /\ InRange(t.v[i].b) /\ InRange(t.v[i].s)
  /\ \A i \in 0..(Depth - 2) : t.v[i].a = t.v[i + 1].s
  /\ ~AnyFork(t)
  /\ t.claim = t.v[Depth - 1].a

----------------------------------------------------------------------------
(* Exploration: the prover builds its attempt layer by layer.  Masks are only *)
(* needed with honest content; only vertices that are neither the root nor    *)
(* right above the liabilities have a W of their own to change.               *)
VARIABLES att, layer
vars == << att, layer >>

Shown(i) == { x \in VertexSet : \/ x.mask = 0
                                 \/ /\ [x EXCEPT !.mask = 0] = HonestVertex(i)
                                    /\ x.mask = 2 => i \in 1..(Depth - 2) }

EmptyVertex == [a |-> 0, b |-> 0, s |-> 0, mask |-> 0]

Init ==
  /\ layer = 0
  /\ \/ att \in { [pub |-> p, v |-> [i \in Layers |-> HonestVertex(i)], w0 |-> w, dig |-> d, sig |-> s, claim |-> c, len |-> n, odd |-> << "none", 0 >>] :
                    p \in {"honest", "own"}, w \in {"published", "shown"}, d \in {"shown", "opened"},
                    s \in {"shown", "opened"}, c \in Claims, n \in Lens }
     \/ att \in { [pub |-> "own", v |-> [i \in Layers |-> IF o[1] = "void" THEN EmptyVertex ELSE HonestVertex(i)], w0 |-> "shown", dig |-> d, sig |-> s,
                    claim |-> c, len |-> "right", odd |-> o] :
                    o \in Odds \ { << "none", 0 >> }, d \in {"shown", "opened"}, s \in {"shown", "opened"}, c \in Claims }

Deviations == Cardinality({ i \in Layers : att.v[i] # HonestVertex(i) })

Next ==
  /\ layer < Depth
  /\ layer' = layer + 1
  /\ \E x \in (IF att.odd[1] = "none" THEN Shown(layer) ELSE { att.v[layer] }) :
       /\ att.odd[1] = "none" /\ x # HonestVertex(layer) => Deviations < MaxDev
       /\ att' = [att EXCEPT !.v[layer] = x]
Spec == Init /\ [][Next]_vars

Done == layer = Depth

\* The verifier accepts exactly the true statements ...
Exact == Done => (Accepts(att) <=> Meaningful(att))
\* ... and attempts that one single test stops are printed
Emit == Done => LET f == Failing(att) IN
                Cardinality(f) = 1 => /\ ~Meaningful(att)
                                      /\ PrintT("SCN" \o ToJson([test |-> CHOOSE k \in f : TRUE, att |-> att]))
=============================================================================
