------------------------------ MODULE PairTrace ------------------------------
(* Executions of two real sessions joined by pipes or sockets.               *)
EXTENDS Pair, TraceBatch
VARIABLE p
\* what the simulated network notes
Notes == {"accept", "est", "fault", "listen", "unlisten", "rst"}
TInit == BatchInit /\ p = Start
TNext == \/ /\ HasE /\ E.e \in Notes
            /\ Consume /\ UNCHANGED p
         \/ /\ HasE /\ E.e \in Known
            /\ p' = Step(p, E)
            /\ ~p'.bad
            /\ Consume
TSpec == TInit /\ [][TNext]_<<p, tid, l>>
=============================================================================
