------------------------------ MODULE ArgTrace ------------------------------
(* Judges what the verifiers of the arguments said.  Vectors are tables of   *)
(* field elements (limb sequences); every event shows a verifier a statement *)
(* and a proof, and tells which statement the proof was made for, whether    *)
(* the library's prover made it from true witnesses (honest), and whether    *)
(* something was changed afterwards (altered).                               *)
(*                                                                           *)
(*   accepted  =>  the statement is true, it is the one the proof was made   *)
(*                 for, and nothing was changed                              *)
(*   honest, true, unchanged  =>  accepted                                   *)
EXTENDS Amounts, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Order      \* of the group

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, vec, trivial      \* trivial: vectors whose commitment is the neutral element
vars == << l, vec, trivial >>

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = << >> THEN Zero ELSE Add(Head(s), SumSeq(Tail(s)))
RECURSIVE UpTo(_, _, _)      \* a = b + k * Order for some k in 0..n
UpTo(a, b, n) == a = b \/ (n > 0 /\ UpTo(a, Add(b, Order), n - 1))

InRange(v) == \A i \in DOMAIN v : InRange63(v[i])
AddsUp(v) == UpTo(SumSeq(SubSeq(v, 1, Len(v) - 1)), v[Len(v)], Len(v))
\* The weight of the first commitment is 1: what is proved of it alone is also
\* proved of it and vectors that are known to be zero
SameList(shown, made) == shown = made \/ (Len(made) = 1 /\ SelectSeq(shown, LAMBDA x : x \notin trivial) = made)
Equal(p) == vec[p.v][p.i + 1] = vec[p.w][p.j + 1]

RECURSIVE DotSmall(_, _)
DotSmall(a, b) == IF a = << >> THEN 0 ELSE Head(a) * Head(b) + DotSmall(Tail(a), Tail(b))
AsAmount(n) == IF n = 0 THEN Zero ELSE IF n < LimbBase THEN << n >> ELSE << n % LimbBase, n \div LimbBase >>
\* P is the commitment of a and b, c their product
Product(e) == ~e.shifted /\ (IF e.small THEN e.c = AsAmount(DotSmall(e.a, e.b)) ELSE e.c = e.product)

Verdict(e, true, same) ==
  /\ e.ok => true /\ same /\ (~e.altered \/ e.excused)
  /\ (e.honest /\ true /\ same /\ ~e.altered) => e.ok

Step(e) ==
  CASE e.ev = "begin" -> vec' = << >> /\ trivial' = {}
    [] e.ev = "vec" -> e.id = Len(vec) + 1 /\ vec' = Append(vec, e.v) /\ trivial' = IF e.trivial THEN trivial \cup {e.id} ELSE trivial
    [] e.ev = "range" -> Verdict(e, InRange(vec[e.shown]), e.shown = e.made) /\ UNCHANGED << vec, trivial >>
    [] e.ev = "sum" -> Verdict(e, \A k \in DOMAIN e.shown : AddsUp(vec[e.shown[k]]), SameList(e.shown, e.made)) /\ UNCHANGED << vec, trivial >>
    [] e.ev = "equal" -> Verdict(e, \A k \in DOMAIN e.shown : Equal(e.shown[k]), e.shown = e.made) /\ UNCHANGED << vec, trivial >>
    [] e.ev = "ipa" -> Verdict(e, Product(e), e.same) /\ UNCHANGED << vec, trivial >>
    \* the prover and the verifier see the same challenges
    [] e.ev = "reduce" -> Verdict(e, e.start /\ e.final = e.folded, e.same) /\ (e.ok => e.agree) /\ UNCHANGED << vec, trivial >>
    \* challenges of different proofs (Grinding.tla): they differ and are of full size
    [] e.ev = "challenges" -> Cardinality({ e.list[k] : k \in DOMAIN e.list }) = Len(e.list) /\ e.full /\ UNCHANGED << vec, trivial >>
    [] e.ev \in {"unbuilt", "uncalibrated", "bound"} -> UNCHANGED << vec, trivial >>
    [] OTHER -> FALSE

TInit == l = 1 /\ vec = << >> /\ trivial = {}
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_vars
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<< "REJECTED", d >>) /\ FALSE
=============================================================================
