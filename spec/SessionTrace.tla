---------------------------- MODULE SessionTrace ----------------------------
(* Executions recorded from the real session.  PROP selects the property     *)
(* that is enforced; crashes, deadlocks and livelocks have no step at all.   *)
EXTENDS Session, TraceBatch
VARIABLE m
Prop == IOEnv.PROP
TInit == BatchInit /\ m = Start
TNext == /\ HasE /\ E.e \in Known
         /\ m' = Step(m, E)
         /\ Prop \notin m'.bad
         /\ Consume
TSpec == TInit /\ [][TNext]_<<m, tid, l>>
=============================================================================
