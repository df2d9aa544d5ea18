----------------------------- MODULE PathTree -----------------------------
(* The path tree: data at the leaves, every inner vertex recomputed from its  *)
(* children by a function the user supplies.  The function is arbitrary: each *)
(* call returns some new token, so nothing can be predicted or cancelled; and *)
(* it may do what it likes with the list it is given, which is its own.       *)
(* Vertices are named by their path, a sequence of slots.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS PFan, PDepth, Modes

VARIABLES
  data,     \* path -> token, for every vertex that exists and has data
  key,      \* path -> key shown for the vertex
  going,    \* << >> or << path of the leaf, level of the ancestor recomputed next >>
  calls     \* the calls of the current insertion, for checking
pvars == << data, key, going, calls >>

Cut(p, k) == SubSeq(p, 1, k)
None == -1
At(p) == IF p \in DOMAIN data THEN data[p] ELSE None
Kids(p, f) == [i \in 1..f |-> At(Append(p, i - 1))]

Begin(p, tok) ==
  /\ going = << >>
  /\ data' = (p :> tok) @@ data
  /\ going' = << p, Len(p) - 1 >>
  /\ calls' = << >>
  /\ UNCHANGED key

\* The call for the ancestor that is next, with what it must be given
Call(k, prev, kids, leaves, changed, result, f) ==
  /\ going # << >> /\ going[2] >= 0
  /\ LET p == going[1] v == Cut(p, going[2]) IN
     /\ prev = At(v)
     /\ kids = Kids(v, f)
     /\ leaves = (going[2] = Len(p) - 1)
     /\ changed = p[going[2] + 1]
     /\ IF v \in DOMAIN key THEN key[v] = k ELSE \A q \in DOMAIN key : key[q] # k
     /\ key' = (v :> k) @@ key
     /\ data' = (v :> result) @@ data
     /\ going' = << p, going[2] - 1 >>
     /\ calls' = Append(calls, v)

End == /\ going # << >> /\ going[2] = -1
       /\ going' = << >> /\ UNCHANGED << data, key, calls >>

\* What a lookup answers
Found(p) == p \in DOMAIN data
\* What a serialization writes: every vertex once, after its parent
Written(items) ==
  /\ { items[i][1] : i \in DOMAIN items } = DOMAIN data
  /\ Len(items) = Cardinality(DOMAIN data)
  /\ \A i \in DOMAIN items :
       /\ items[i][2] = data[items[i][1]]
       /\ items[i][1] # << >> => \E j \in 1..(i - 1) : items[j][1] = Cut(items[i][1], Len(items[i][1]) - 1)
Ancestors(p) == [i \in 1..Len(p) |-> At(Cut(p, i - 1))]

\* ---- a small instance --------------------------------------------------------

PathsOf == [1..PDepth -> 0..(PFan - 1)]
Fresh == Cardinality(DOMAIN data) * 100 + Len(calls) + 1
KeyOf(p) == p

Init == data = << >> /\ key = << >> /\ going = << >> /\ calls = << >>

\* tokens are bounded to keep the instance finite
Tok == 0..Modes
Next == \/ \E p \in PathsOf, t \in Tok : Begin(p, t)
        \/ going # << >> /\ going[2] >= 0 /\
             LET v == Cut(going[1], going[2]) IN
             \E t \in Tok : Call(KeyOf(v), At(v), Kids(v, PFan), going[2] = Len(going[1]) - 1, going[1][going[2] + 1], t, PFan)
        \/ End
Spec == Init /\ [][Next]_pvars

\* every ancestor once, from the lowest to the root
OncePerAncestor == going = << >> /\ calls # << >> =>
  /\ Len(calls) = PDepth
  /\ \A i \in 1..PDepth : Len(calls[i]) = PDepth - i
\* the vertices that exist are exactly the prefixes of the leaves
Shape == going = << >> => DOMAIN data = { Cut(p, k) : p \in { q \in DOMAIN data : Len(q) = PDepth }, k \in 0..PDepth }
KeysDistinct == \A p, q \in DOMAIN key : key[p] = key[q] => p = q
KeysStay == [][ \A p \in DOMAIN key : p \in DOMAIN key' /\ key'[p] = key[p] ]_pvars
\* only vertices on the path change
OnlyPath == [][ \A p \in DOMAIN data : data'[p] # data[p] =>
                  \E leaf \in PathsOf : (going' # << >> /\ going'[1] = leaf) /\ p = Cut(leaf, Len(p)) ]_pvars
=============================================================================
