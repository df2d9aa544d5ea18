---------------------------- MODULE ParamsTrace ----------------------------
(* Accepts descriptions of generated parameters that are what Params says.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, secret, fixed, derived
vars == << l, secret, fixed, derived >>
P == INSTANCE Params WITH MaxN <- 2, Mistake <- "none", n <- 2, pub1 <- << >>, pub2 <- << >>

Range(s) == { s[i] : i \in DOMAIN s }
Distinct(s) == Cardinality(Range(s)) = Len(s)

\* The exponents a pairing of positions k and j adds up to
Degree(n, c) == P!Exp1(n, c[1]) + P!Exp2(n, c[2])

Structured(e) ==
  /\ Len(e.g1) = P!Size1(e.n) /\ Len(e.g2) = P!Size2(e.n)
  /\ Distinct(e.g1) /\ Distinct(e.g2)
  /\ \A k \in 1..Len(e.g1) : (e.g1[k] = e.gen) <=> P!Exp1(e.n, k - 1) = 0
  /\ e.gen2 \notin Range(e.g2)
  \* pairings are equal exactly when their degrees are
  /\ LET pairs == { << Degree(e.n, e.classes[i]), e.classes[i][3] >> : i \in DOMAIN e.classes } \cup { << P!Critical(e.n), e.gt >> } IN
     /\ Cardinality(pairs) = Cardinality({ p[1] : p \in pairs })
     /\ Cardinality(pairs) = Cardinality({ p[2] : p \in pairs })
  /\ ~e.weak

\* What is particular to one generation
Own(e) == { e.g1[k] : k \in { k \in 1..Len(e.g1) : P!Exp1(e.n, k - 1) # 0 } } \cup Range(e.g2) \cup {e.gt}

Fits(e) ==
  /\ e.made /\ e.fanout = e.fan
  /\ e.n = P!Slots(e.fan)
  /\ e.samesrs /\ e.srs = e.poesrs /\ Len(e.srs) = P!Slots(e.fan)
  \* all arguments speak about the same commitments
  /\ e.sumGs = SubSeq(e.srs, 1, P!Width(e.fan)) /\ e.sumF = e.srs[P!Slots(e.fan)]
  /\ e.rangeGs = e.sumGs /\ e.rangeF = e.sumF
  \* and are large enough for one vertex, for the path
  /\ e.sumHs = P!Width(e.fan) /\ e.sumB
  /\ e.rangeHs = (P!Bits + 1) * P!Width(e.fan) /\ e.rangeFs = e.rangeHs
  /\ e.poeG = P!Batch(e.path) /\ e.poeH = e.poeG
  \* no relation between the others is known
  /\ Distinct(e.gens) /\ Range(e.gens) \cap Range(e.srs) = {} /\ e.related = ""
  /\ Distinct(e.digests)

Step(e) ==
  CASE e.ev = "begin" -> UNCHANGED << secret, fixed, derived >>
    [] e.ev = "srs" -> /\ Structured(e)
                       /\ Own(e) \cap secret = {}
                       /\ secret' = secret \cup Own(e) /\ UNCHANGED << fixed, derived >>
    [] e.ev = "params" -> /\ Fits(e)
                          /\ Range(e.digests) \cap secret = {}
                          /\ secret' = secret \cup Range(e.digests)
                          /\ LET k == << e.fan, e.path >> IN
                             /\ k \in DOMAIN fixed => fixed[k] = e.fixed
                             /\ fixed' = (k :> e.fixed) @@ fixed
                          /\ UNCHANGED derived
    [] e.ev = "gens" -> /\ Distinct(e.list) /\ e.related = "" /\ e.hashed
                        /\ \A c \in DOMAIN derived :
                             IF c = e.ctx
                             THEN \A i \in 1..Len(e.list) : i \in DOMAIN derived[c] => derived[c][i] = e.list[i]
                             ELSE Range(derived[c]) \cap Range(e.list) = {}
                        /\ derived' = IF e.ctx \in DOMAIN derived /\ Len(derived[e.ctx]) >= Len(e.list) THEN derived ELSE (e.ctx :> e.list) @@ derived
                        /\ UNCHANGED << secret, fixed >>
    [] e.ev = "noparams" -> ~e.made /\ ~e.hang /\ UNCHANGED << secret, fixed, derived >>
    [] e.ev = "cross" -> e.accepted = e.same /\ UNCHANGED << secret, fixed, derived >>
    [] e.ev = "uncalibrated" -> UNCHANGED << secret, fixed, derived >>
    [] OTHER -> FALSE

TInit == l = 1 /\ secret = {} /\ fixed = << >> /\ derived = << >>
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_vars
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<< "REJECTED", d >>) /\ FALSE
=============================================================================
