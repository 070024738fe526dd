----------------------------- MODULE NetConnTrace -----------------------------
(* Recorded executions of one connection, against NetConn.                   *)
EXTENDS NetConn, TraceBatch
VARIABLE m
TInit == BatchInit /\ m = Start
TNext == HasE /\ E.e \in Known /\ m' = Step(m, E) /\ m'.bad = {} /\ Consume
TSpec == TInit /\ [][TNext]_<<m, tid, l>>
=============================================================================
