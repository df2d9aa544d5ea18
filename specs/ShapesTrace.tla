---------------------------- MODULE ShapesTrace ----------------------------
(* Judges recorded verifications of proofs whose lists were made shorter or   *)
(* longer.  A crash is an event of its own, which nothing here allows.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Fits(e) == \A k \in DOMAIN e.lists : e.lists[k].got = e.lists[k].want

Step(e) ==
  CASE e.ev = "shape" -> ~e.panic /\ (e.ok => Fits(e))
    [] e.ev \in {"begin", "unbuilt"} -> TRUE
    [] OTHER -> FALSE

TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_l
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<< "REJECTED", d >>) /\ FALSE
=============================================================================
