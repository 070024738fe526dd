------------------------------ MODULE LifeTrace ------------------------------
(* Recorded executions of real sessions over tracked objects.                *)
EXTENDS Life, TraceBatch
VARIABLE m
TInit == BatchInit /\ m = Start
TNext == HasE /\ E.e \in Known /\ m' = Step(m, E) /\ m'.bad = {} /\ Consume
TSpec == TInit /\ [][TNext]_<<m, tid, l>>
=============================================================================
