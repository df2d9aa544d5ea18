------------------------- MODULE GenLiabilitySet --------------------------
(* Histories of user operations on a liability set.  With Random = TRUE each *)
(* behaviour is one randomly drawn history (run with -simulate); otherwise   *)
(* TLC enumerates every history of MaxOps operations.  Histories never let   *)
(* the total reach 2^63, which the system excludes.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, Amounts

CONSTANTS Ids,        \* sequence of ids (strings)
          Values,     \* sequence of [s |-> decimal string, a |-> amount]
          Kinds,      \* sequence of operation kinds; repetition is weight
          MaxOps, Depth, Random,
          Closing     \* operations appended to every history

VARIABLES hist, liab, attempted, last

EmptyFn == [x \in {} |-> Zero]
Put1(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
Drop1(f, x)   == [z \in DOMAIN f \ {x} |-> f[z]]
Rng(s) == { s[i] : i \in DOMAIN s }
Larger(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) > Len(b) THEN a ELSE b)
             ELSE IF \E i \in 1..Len(a) : a[i] > b[i] /\ \A j \in (i + 1)..Len(a) : a[j] = b[j] THEN a ELSE b

\* room left: every value that is or may be stored counts
Fits(p, v) == InRange63(Add(SumOver(Drop1(liab, p)), Add(SumOver(Drop1(attempted, p)), v.a)))

ValueOf(s) == CHOOSE v \in Rng(Values) : v.s = s

OpsOf(k, ps) ==
  CASE k = "set"    -> { << "set", p, v.s >> : p \in ps, v \in { w \in Rng(Values) : \A q \in ps : Fits(q, w) } }
    [] k = "fail"   -> { << "set", p, v.s, ToString(n), m >> :
                           p \in ps, v \in { w \in Rng(Values) : \A q \in ps : Fits(q, w) },
                           n \in 0..(Depth - 1), m \in {"before", "after"} }
    [] k = "repair" -> { << "set", p, v.s >> : p \in DOMAIN attempted, v \in { w \in Rng(Values) : w.s \in {"0", "1"} } }
    [] k = "neg"    -> { << "neg", p, s >> : p \in ps, s \in {"-1", "-7", "-2147483649", "-9223372036854775808"} }
    [] k \in {"get", "prove", "vertices"} -> { << k, p >> : p \in ps }
    [] OTHER        -> { << k >> }

Used == DOMAIN liab \cup DOMAIN attempted

Apply(op) ==
  /\ hist' = Append(hist, op)
  /\ last' = IF op[1] = "set" THEN op[2] ELSE last
  /\ IF op[1] # "set" THEN UNCHANGED << liab, attempted >>
     ELSE IF Len(op) = 3
     THEN liab' = Put1(liab, op[2], ValueOf(op[3]).a) /\ attempted' = Drop1(attempted, op[2])
     ELSE LET v == ValueOf(op[3]).a IN
          attempted' = Put1(attempted, op[2], IF op[2] \in DOMAIN attempted THEN Larger(attempted[op[2]], v) ELSE v)
          /\ UNCHANGED liab

RandomId ==
  LET n == RandomElement(1..4) IN     \* (evaluated anew at each use)
  IF n = 1 /\ Used # {} THEN RandomElement(Used)
  ELSE IF n = 2 /\ last # "" THEN last
  ELSE RandomElement(Rng(Ids))

Draws(k, p) == LET ops == OpsOf(Kinds[k], {p}) IN IF ops = {} THEN { << "get", Ids[1] >> } ELSE ops
Draw == \E k \in {RandomElement(DOMAIN Kinds)} : \E p \in {RandomId} : \E op \in {RandomElement(Draws(k, p))} : Apply(op)

Init == hist = << >> /\ liab = EmptyFn /\ attempted = EmptyFn /\ last = ""
Next ==
  /\ Len(hist) < MaxOps
  /\ IF Random THEN Draw
     ELSE \E k \in Rng(Kinds) : \E p \in Rng(Ids) : \E op \in OpsOf(k, {p}) : Apply(op)
Spec == Init /\ [][Next]_<< hist, liab, attempted, last >>

\* prints each complete history once
\* (interrupted updates that are still open are repeated first)
Repairs == SetToSeq({ << "set", p, "1" >> : p \in DOMAIN attempted })
Emit == Len(hist) = MaxOps => PrintT("SCN" \o ToJson(hist \o Repairs \o Closing))
=============================================================================
