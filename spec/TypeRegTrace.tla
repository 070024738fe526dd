----------------------------- MODULE TypeRegTrace -----------------------------
(* Recorded executions of programs over the real type registry.              *)
EXTENDS TypeReg, TraceBatch
VARIABLE m
TInit == BatchInit /\ m = Start
TNext == HasE /\ E.e \in Known /\ m' = Step(m, E) /\ m'.bad = {} /\ Consume
TSpec == TInit /\ [][TNext]_<<m, tid, l>>
=============================================================================
