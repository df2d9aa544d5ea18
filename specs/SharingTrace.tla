--------------------------- MODULE SharingTrace ---------------------------
(* Accepts recorded uses of shared objects in which nothing shared changes    *)
(* and every verdict and answer depends on the statement alone (Unchanged,    *)
(* Verdicts and Complete of Sharing).                                         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, base
vars == << l, base >>

Do(e) ==
  /\ ~e.panic
  /\ e.changed = << >>
  /\ CASE e.op \in {"verify", "vtot"} -> e.ok <=> e.stmt = "right"
       [] e.op = "reprove" -> e.ok
       [] e.op = "prove" -> e.ok /\ e.amount = e.content
       [] e.op = "get" -> e.ok /\ e.amount = e.content
       [] e.op = "absent" -> e.ok
       [] e.op = "root" -> e.V = base.V /\ e.W = base.W
       [] e.op = "tot" -> e.tot = base.tot /\ e.totproof = base.totproof
       [] OTHER -> FALSE

Step(e) ==
  CASE e.ev = "share" -> base' = e
    [] e.ev = "do" -> Do(e) /\ UNCHANGED base
    [] e.ev = "quiet" -> e.changed = << >> /\ UNCHANGED base
    [] e.ev = "uncalibrated" -> UNCHANGED base
    [] OTHER -> FALSE           \* crash, hang, race

TInit == l = 1 /\ base = << >>
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_vars
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<< "REJECTED", d >>) /\ FALSE
=============================================================================
