----------------------------- MODULE FiatShamir -----------------------------
(* Which challenge of which argument must be derived from what.              *)
(*                                                                           *)
(* An argument is a list of components (chosen by the prover, the statement  *)
(* included), challenges (hashes of components and earlier challenges) and   *)
(* checks.  A check compares polynomials in some challenges whose            *)
(* coefficients are components; it is forced if one of these components can  *)
(* be chosen when all of the check's challenges are known already, that is,  *)
(* if none of the challenges depends on it.                                  *)
(*                                                                           *)
(* TLC goes through all ways of leaving inputs out of challenges (Dropped),  *)
(* checks that nothing can be forced when nothing is left out (Sound), that  *)
(* every component that matters is needed (an attack exists for each minimal *)
(* set), and prints the minimal forcing sets: the harness carries out the    *)
(* corresponding attacks on the real verifiers.                              *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json

CONSTANTS Args, MaxDrop

Ch(in) == [inputs |-> in]
\* checks: [name, comps, chs]
Check(n, c, x) == [name |-> n, comps |-> c, chs |-> x]

Table == [
  sum |-> [
    chs |-> [x |-> {"c", "V", "W"}],
    checks |-> { Check("adds up", {"c", "V", "W"}, {"x"}) }],
  sums |-> [
    chs |-> [tau |-> {"V1", "V2", "V3"}, x |-> {"c", "V1", "V2", "V3", "tau", "W"}],
    checks |-> { Check("combination", {"V1", "V2", "V3"}, {"tau"}),
                 Check("adds up", {"c", "W"}, {"x"}) }],
  equality |-> [
    chs |-> [x |-> {"V", "W", "Va", "Wa"}, ts |-> {"V", "W", "Va", "Wa", "C", "x"}],
    checks |-> { Check("same entry", {"V", "W", "Va", "Wa"}, {"x"}),
                 Check("both openings", {"V", "W", "Va", "Wa", "C"}, {"x", "ts"}) }],
  equalities |-> [
    chs |-> [x |-> {"V", "W", "Va", "Wa"}, ts |-> {"V", "W", "Va", "Wa", "U", "PV"}],
    checks |-> { Check("same entry", {"V", "W", "Va", "Wa"}, {"x"}),
                 Check("all openings", {"V", "W", "Va", "Wa", "U", "PV"}, {"x", "ts"}),
                 Check("values", {"PV"}, {"ts"}),
                 Check("weights", {"V", "W"}, {"ts"}) }],
  ipa |-> [
    chs |-> [x0 |-> {"P", "C"}, x1 |-> {"L1", "R1", "x0"}, x2 |-> {"L2", "R2", "x0"}],
    checks |-> { Check("vectors", {"P", "L1", "R1", "L2", "R2"}, {"x1", "x2"}),
                 Check("product", {"P", "C", "L1", "R1", "L2", "R2"}, {"x0", "x1", "x2"}) }],
  reduction |-> [
    chs |-> [x1 |-> {"A1", "B1", "V0"}, x2 |-> {"A2", "B2", "V1"}],
    checks |-> { Check("fold 1", {"A1", "B1", "V0"}, {"x1"}),
                 Check("fold 2", {"A2", "B2", "V1"}, {"x2"}) }],
  range |-> [
    chs |-> [x |-> {"V", "W", "Q"}, y |-> {"Q", "R", "x"}, z |-> {"C1", "C2", "Q", "R", "y"}],
    checks |-> { Check("digits of the committed", {"V", "W", "Q"}, {"x"}),
                 Check("digits are bits", {"Q"}, {"y"}),
                 Check("polynomial", {"C1", "C2", "R"}, {"y", "z"}) }] ]

VARIABLES arg, dropped     \* dropped: set of << challenge, input >>
vars == << arg, dropped >>

T == Table[arg]
All(a) == UNION { { << c, i >> : i \in Table[a].chs[c] } : c \in DOMAIN Table[a].chs }
Init == arg \in Args /\ dropped \in { D \in SUBSET All(arg) : Cardinality(D) <= MaxDrop }
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* Everything a challenge depends on
RECURSIVE Depends(_, _)
Depends(c, D) == LET in == { i \in T.chs[c] : << c, i >> \notin D }
                 IN in \cup UNION { Depends(i, D) : i \in in \cap DOMAIN T.chs }
Late(k, c, D) == \A x \in k.chs : c \notin Depends(x, D)
Forced(D) == UNION { { << k.name, c >> : c \in { c \in k.comps : Late(k, c, D) } } : k \in T.checks }

Sound == dropped = {} => Forced({}) = {}
Monotone == \A d \in dropped : Forced(dropped \ {d}) \subseteq Forced(dropped)
\* Leaving any component out of everything is exploitable
EveryComponentNeeded ==
  \A c \in UNION { T.chs[x] : x \in DOMAIN T.chs } \ (DOMAIN T.chs) :
     (dropped = { << x, c >> : x \in { y \in DOMAIN T.chs : c \in T.chs[y] } })
       => (\E kc \in Forced(dropped) : kc[2] = c) \/ \A k \in T.checks : c \notin k.comps

Minimal == \A d \in dropped : Forced(dropped \ {d}) = {}
Emit == \A kc \in Forced(dropped) :
          PrintT("SCN" \o ToJson([arg |-> arg, check |-> kc[1], late |-> kc[2], dropped |-> dropped, minimal |-> Minimal]))
=============================================================================
