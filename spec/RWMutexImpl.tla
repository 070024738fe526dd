----------------------------- MODULE RWMutexImpl ----------------------------
(* The lock as it is built: the writer keeps the internal mutex while it     *)
(* holds the lock; readers are counted; a condition variable wakes one       *)
(* waiting writer when the last reader leaves or a writer leaves.            *)
EXTENDS Naturals, Integers, FiniteSets

CONSTANTS Threads, MaxOps, Bug   \* Bug: a wrong variant, or none
VARIABLES mutex, readers, pendingW, pc, op, ops
vars == <<mutex, readers, pendingW, pc, op, ops>>
Nobody == 99

Init == /\ mutex = Nobody /\ readers = 0 /\ pendingW = 0
        /\ pc = [t \in Threads |-> "idle"] /\ op = [t \in Threads |-> "none"]
        /\ ops = [t \in Threads |-> 0]

Begin(t, o) ==
  /\ pc[t] = "idle" /\ ops[t] < MaxOps
  /\ pc' = [pc EXCEPT ![t] = "lock"] /\ op' = [op EXCEPT ![t] = o]
  /\ ops' = [ops EXCEPT ![t] = @ + 1] /\ UNCHANGED <<mutex, readers, pendingW>>
BeginUnlock(t) ==
  /\ pc[t] = "held"
  /\ pc' = [pc EXCEPT ![t] = IF op[t] = "rlock" THEN "lock" ELSE "crit"]
  /\ op' = [op EXCEPT ![t] = IF @ = "rlock" THEN "runlock" ELSE "wunlock"]
  /\ UNCHANGED <<mutex, readers, pendingW, ops>>

Acquire(t) ==
  /\ pc[t] \in {"lock", "relock"} /\ mutex = Nobody
  /\ mutex' = t /\ pc' = [pc EXCEPT ![t] = IF @ = "relock" THEN "woken" ELSE "crit"]
  /\ UNCHANGED <<readers, pendingW, op, ops>>

RLock(t) == /\ pc[t] = "crit" /\ op[t] = "rlock"
            /\ readers' = readers + 1 /\ mutex' = Nobody
            /\ pc' = [pc EXCEPT ![t] = "done"] /\ UNCHANGED <<pendingW, op, ops>>
Waiters == {u \in Threads : pc[u] = "wait"}
\* pc' with t at `next' and one waiter (if any) woken when `wake'
Wake(t, wake, next) ==
  IF wake /\ Waiters # {}
  THEN \E u \in Waiters : pc' = [pc EXCEPT ![t] = next, ![u] = "relock"]
  ELSE pc' = [pc EXCEPT ![t] = next]
RUnlock(t) == /\ pc[t] = "crit" /\ op[t] = "runlock"
              /\ readers' = readers - 1 /\ mutex' = Nobody
              /\ Wake(t, readers = 1 /\ pendingW > (IF Bug = "one_pending" THEN 1 ELSE 0), "done")
              /\ UNCHANGED <<pendingW, op, ops>>
WLock(t) == /\ pc[t] = "crit" /\ op[t] = "wlock"
            /\ IF readers > 0
               THEN /\ pendingW' = pendingW + 1 /\ mutex' = Nobody
                    /\ pc' = [pc EXCEPT ![t] = "wait"]
               ELSE /\ pc' = [pc EXCEPT ![t] = "done"] /\ UNCHANGED pendingW
                    /\ mutex' = IF Bug = "released" THEN Nobody ELSE mutex
            /\ UNCHANGED <<readers, op, ops>>
WLockWoken(t) == /\ pc[t] = "woken"
                 /\ IF readers > 0 /\ Bug # "no_recheck"
                    THEN /\ mutex' = Nobody /\ pc' = [pc EXCEPT ![t] = "wait"]
                         /\ UNCHANGED pendingW
                    ELSE /\ pendingW' = pendingW - 1
                         /\ pc' = [pc EXCEPT ![t] = "done"] /\ UNCHANGED mutex
                 /\ UNCHANGED <<readers, op, ops>>
WUnlock(t) == /\ pc[t] = "crit" /\ op[t] = "wunlock"
              /\ mutex' = Nobody
              /\ Wake(t, Bug # "unlock_silent" /\ pendingW > 0, "done")
              /\ UNCHANGED <<readers, pendingW, op, ops>>
Spurious(t) == pc[t] = "wait" /\ pc' = [pc EXCEPT ![t] = "relock"]
               /\ UNCHANGED <<mutex, readers, pendingW, op, ops>>
Return(t) ==
  /\ pc[t] = "done"
  /\ IF op[t] \in {"rlock", "wlock"}
     THEN pc' = [pc EXCEPT ![t] = "held"] /\ UNCHANGED op
     ELSE pc' = [pc EXCEPT ![t] = "idle"] /\ op' = [op EXCEPT ![t] = "none"]
  /\ UNCHANGED <<mutex, readers, pendingW, ops>>

Run(t) == Acquire(t) \/ RLock(t) \/ RUnlock(t) \/ WLock(t) \/ WLockWoken(t) \/ WUnlock(t)
          \/ Return(t) \/ BeginUnlock(t)
Next == \E t \in Threads : Run(t) \/ Spurious(t) \/ Begin(t, "rlock") \/ Begin(t, "wlock")
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Acquire(t)) /\ WF_vars(Run(t))

\* ------------------------------------------------------------- refinement
HoldsW(t) == \/ op[t] = "wlock" /\ pc[t] \in {"done", "held"}
             \/ op[t] = "wunlock" /\ pc[t] = "crit"
absWr == [m \in {0} |-> \E t \in Threads : HoldsW(t)]
absRd == [m \in {0} |-> readers]
absPend == [t \in Threads |->
  IF pc[t] \in {"idle", "held"} THEN [op |-> "none", a |-> 0, b |-> 0, done |-> FALSE]
  ELSE [op |-> op[t], a |-> 0, b |-> 0, done |-> pc[t] = "done"]]
absSlot == [s \in {} |-> 0]
A == INSTANCE RWMutex WITH rd <- absRd, wr <- absWr, slot <- absSlot, pend <- absPend,
                           Mutexes <- {0}, Slots <- {}
AbsNext == \E t \in Threads :
  \/ \E o \in {"rlock", "wlock", "runlock", "wunlock"} : A!Call(t, o, 0, 0)
  \/ A!Lin(t) \/ A!Ret(t)
Refines == A!RWInit /\ [][AbsNext]_<<absRd, absWr, absPend>>
Exclusion == A!Exclusion /\ Cardinality({t \in Threads : HoldsW(t)}) <= 1
\* pc = lock with the mutex held by a writer is waiting, too
Stuck(t) == pc[t] \in {"idle", "wait", "held"} \/ (pc[t] \in {"lock", "relock"} /\ mutex # Nobody)
NoStranded == (\A t \in Threads : Stuck(t)) => A!Quiescent
EveryoneFinishes == <>[](\A t \in Threads : pc[t] = "idle")
=============================================================================
