---------------------------- MODULE ProofTrace -----------------------------
(* Judges what the real verifiers said about attempts, presentations and     *)
(* altered proofs.  Acceptance must imply the statement; that true           *)
(* statements are accepted is judged with LiabilitySetTrace.                 *)
EXTENDS ProofSystem, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == << vars, l >>

\* The attempt of an event, layers numbered from 0
Att(e) == [pub |-> e.att.pub, v |-> [i \in Layers |-> e.att.v[i + 1]], w0 |-> e.att.w0, dig |-> e.att.dig,
           sig |-> e.att.sig, claim |-> e.att.claim, len |-> e.att.len, odd |-> e.att.odd]

\* The prover of a witness attempt claims an amount nobody committed to
TAttempt(e) == e.ok => e.test # "witness" /\ Meaningful(Att(e)) /\ e.variant \notin {"extraV", "extraVR", "extraW"}

\* Presenting a proof: only the statement it was made for
TPresent(e) == e.ok => e.shown = e.made

TTamper(e) == e.ok => e.excused

\* List lengths: refused with an error, not with a crash
TLength(e) == ~e.ok /\ ~e.panic

Step(e) ==
  CASE e.ev = "attempt" -> TAttempt(e)
    [] e.ev = "present" -> TPresent(e)
    [] e.ev = "tamper"  -> TTamper(e)
    [] e.ev = "length"  -> TLength(e)
    [] e.ev \in {"begin", "unbuilt", "uncalibrated"} -> TRUE     \* nothing was shown to a verifier
    [] OTHER -> FALSE

TInit == Init /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l]) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_tvars
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<< "REJECTED", d >>) /\ FALSE
=============================================================================
