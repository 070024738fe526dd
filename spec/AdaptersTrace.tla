---------------------------- MODULE AdaptersTrace ----------------------------
(* Recorded uses of stream adapters, against Adapters.                       *)
EXTENDS Adapters, TraceBatch
VARIABLE m
TInit == BatchInit /\ m = Start
TNext == HasE /\ E.e \in Known /\ m' = Step(m, E) /\ m'.bad = {} /\ Consume
TSpec == TInit /\ [][TNext]_<<m, tid, l>>
=============================================================================
