---------------------------- MODULE MasksTrace ----------------------------
(* Accepts records of sets and proofs in which no masked element occurs twice *)
(* (NeverTwice, NeverBare and SetsDiffer of Masks), over all processes.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, seen, roots
M == INSTANCE Masks WITH Processes <- {}, Contents <- {}, MaxSteps <- 0, Source <- "fresh", Elements <- 0,
                         drawn <- << >>, sets <- << >>, proofs <- << >>, steps <- 0
Full == 150      \* a random field element of 254 bits, or the distance of two of them, is not shorter than this
vars == << l, seen, roots >>

Range(s) == { s[i] : i \in DOMAIN s }

Step(e) ==
  CASE e.ev = "begin" -> UNCHANGED << seen, roots >>
    [] e.ev = "vertices" ->
         /\ e.least >= Full
         /\ \A i \in DOMAIN e.list : ~e.list[i].bare
         /\ LET ns == [i \in DOMAIN e.list |-> e.list[i].nonce] vs == [i \in DOMAIN e.list |-> e.list[i].V] IN
            /\ Cardinality(Range(ns)) = Len(ns) /\ Cardinality(Range(vs)) = Len(vs)
            /\ (Range(ns) \cup Range(vs)) \cap seen = {}
            /\ seen' = seen \cup Range(ns) \cup Range(vs)
         /\ UNCHANGED roots
    [] e.ev = "setroot" -> /\ e.V \notin roots /\ e.W \notin roots /\ roots' = roots \cup {e.V, e.W} /\ UNCHANGED seen
    [] e.ev = "elems" ->
         /\ e.least >= Full
         /\ Cardinality(Range(e.list)) = Len(e.list)
         /\ Range(e.list) \cap seen = {}
         /\ seen' = seen \cup Range(e.list)
         /\ UNCHANGED roots
    \* changing any one of the needed draws, always by the same amount, gives another proof
    [] e.ev = "entropy" ->
         LET need == M!Need(e.what, e.n, e.m) idle == e.draws - need IN
         /\ e.short = 0
         /\ idle >= 0
         /\ e.effective + idle >= e.tried
         /\ UNCHANGED << seen, roots >>
    [] e.ev = "uncalibrated" -> UNCHANGED << seen, roots >>
    [] OTHER -> FALSE

TInit == l = 1 /\ seen = {} /\ roots = {}
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_vars
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<< "REJECTED", d >>) /\ FALSE
=============================================================================
