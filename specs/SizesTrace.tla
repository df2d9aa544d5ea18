----------------------------- MODULE SizesTrace -----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
S == INSTANCE Sizes WITH Ids <- {}, Mistake <- "none", own <- {}, left <- {}, right <- {}

Step(e) ==
  CASE e.ev = "size" -> ~e.panic /\ e.size = S!Total(e.parts, e.shared)
    \* adding elements adds their lengths
    [] e.ev = "grown" -> ~e.panic /\ e.after - e.before = e.added
    [] e.ev \in {"begin", "unbuilt"} -> TRUE
    [] OTHER -> FALSE

TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_l
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<< "REJECTED", d >>) /\ FALSE
=============================================================================
