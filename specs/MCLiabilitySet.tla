-------------------------- MODULE MCLiabilitySet --------------------------
(* Exhaustive exploration of the design with small constants.               *)
EXTENDS LiabilitySet
CONSTANTS Fan, Dep, MaxAmount, MaxSets, MaxFaults
VARIABLES sets, faults
mcvars == << vars, sets, faults >>
Paths == [1..Dep -> 0..(Fan - 1)]
MCInit == InitWith(Fan, Dep) /\ sets = 0 /\ faults = 0
MCBegin(p, n) == sets < MaxSets /\ sets' = sets + 1 /\ UNCHANGED faults /\ BeginSet(p, Small(n))
MCWrite == WriteNext("ok") /\ UNCHANGED << sets, faults >>
MCFail(m) == faults < MaxFaults /\ faults' = faults + 1 /\ UNCHANGED sets /\ WriteNext(m)
MCFinish == Finish /\ UNCHANGED << sets, faults >>
MCNext == \/ \E p \in Paths, n \in 0..MaxAmount : MCBegin(p, n)
          \/ MCWrite \/ MCFail("before") \/ MCFail("after") \/ MCFinish
\* every update that is not interrupted completes
MCSpec == MCInit /\ [][MCNext]_mcvars /\ WF_mcvars(MCWrite) /\ WF_mcvars(MCFinish)
Completes == (cur # NoUpdate) ~> (cur = NoUpdate)
\* the published root moves exactly when an acknowledged amount moves (C03)
RootMoves == [][ (Clean /\ Clean') => (liab = liab' => store = store') ]_mcvars
=============================================================================
