------------------------------ MODULE LongTrace ------------------------------
(* Long histories recorded from the real code.                               *)
EXTENDS Long, TraceBatch
VARIABLE m
TInit == BatchInit /\ m = Start
TNext == /\ HasE /\ Allowed(m, E) /\ m' = Step(m, E) /\ Consume
TSpec == TInit /\ [][TNext]_<<m, tid, l>>
=============================================================================
