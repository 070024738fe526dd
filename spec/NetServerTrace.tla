---------------------------- MODULE NetServerTrace ----------------------------
(* Recorded executions of servers and clients, against NetServer.  PROP      *)
(* selects the property enforced.                                            *)
EXTENDS NetServer, TraceBatch
VARIABLE m
TInit == BatchInit /\ m = Start
TNext == HasE /\ E.e \in Known /\ m' = Step(m, E) /\ ~(\E b \in m'.bad : b[1] = IOEnv.PROP) /\ Consume
TSpec == TInit /\ [][TNext]_<<m, tid, l>>
=============================================================================
