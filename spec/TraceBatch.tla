----------------------------- MODULE TraceBatch -----------------------------
(* Common part of all trace specifications.  A file of recorded executions   *)
(* (one JSON object per line, field "ev" is the sequence of events) is       *)
(* validated in one TLC run: `tid' selects the execution, `l' is the next    *)
(* event to explain.  For every execution the furthest event reached on any  *)
(* branch is kept in a TLC register; an execution is accepted iff some       *)
(* branch explains all its events.  (-workers 1.)                            *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

VARIABLES tid, l

Traces == ndJsonDeserialize(IOEnv.VTRACE)
NTraces == Len(Traces)
Evs == Traces[tid].ev
HasE == l <= Len(Evs)
E == Evs[l]
Is(e) == HasE /\ E.e = e
Consume == l' = l + 1 /\ tid' = tid
Silent == UNCHANGED <<tid, l>>

BatchInit == tid \in 1..NTraces /\ l = 1

\* CONSTRAINT: records progress and stops exploring accepted executions
Progress ==
  /\ IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
  /\ TLCGet(tid) <= Len(Evs)

ASSUME \A i \in 1..NTraces : TLCSet(i, 0)

\* POSTCONDITION
Report ==
  /\ PrintT(<<"BATCH", NTraces>>)
  /\ \A i \in 1..NTraces :
       TLCGet(i) > Len(Traces[i].ev) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
=============================================================================
