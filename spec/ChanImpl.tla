------------------------------ MODULE ChanImpl ------------------------------
(* The channel as it is built: a mutex, a condition variable, a queue and a  *)
(* closed flag; one action per critical section.  TLC shows that it refines  *)
(* Chan, never strands a waiter and (under fairness) completes every call    *)
(* that has to complete.  Condition waits may also wake spuriously.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Threads, MaxPuts, MaxOps, NotifyAlways, Bug   \* Bug: a wrong variant, or none
VARIABLES mutex, queue, closed, pc, op, arg, res, puts, ops
vars == <<mutex, queue, closed, pc, op, arg, res, puts, ops>>

Nobody == 99
Init ==
  /\ mutex = Nobody /\ queue = <<>> /\ closed = FALSE
  /\ pc = [t \in Threads |-> "idle"]
  /\ op = [t \in Threads |-> "none"]
  /\ arg = [t \in Threads |-> 0]
  /\ res = [t \in Threads |-> 0]
  /\ puts = 0 /\ ops = [t \in Threads |-> 0]

Begin(t, o) ==
  /\ pc[t] = "idle" /\ ops[t] < MaxOps
  /\ o = "put" => puts < MaxPuts
  /\ pc' = [pc EXCEPT ![t] = "lock"]
  /\ op' = [op EXCEPT ![t] = o]
  /\ arg' = [arg EXCEPT ![t] = IF o = "put" THEN puts + 1 ELSE 0]
  /\ puts' = IF o = "put" THEN puts + 1 ELSE puts
  /\ ops' = [ops EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<mutex, queue, closed, res>>

Acquire(t) ==
  /\ pc[t] \in {"lock", "relock"} /\ mutex = Nobody
  /\ mutex' = t
  /\ pc' = [pc EXCEPT ![t] = "crit"]
  /\ UNCHANGED <<queue, closed, op, arg, res, puts, ops>>

\* pc of everyone after t leaves its critical section, waking all waiters or none
Leave(t, all, next) ==
  IF Bug = "notify_one" /\ all /\ \E u \in Threads : pc[u] = "wait"
  THEN \E u \in Threads : pc[u] = "wait" /\ pc' = [pc EXCEPT ![t] = next, ![u] = "relock"]
  ELSE pc' = [u \in Threads |-> IF u = t THEN next
                           ELSE IF all /\ pc[u] = "wait" THEN "relock" ELSE pc[u]]

Put(t) ==
  /\ pc[t] = "crit" /\ op[t] = "put"
  /\ queue' = IF Bug = "lifo" THEN <<arg[t]>> \o queue ELSE Append(queue, arg[t])
  /\ Leave(t, NotifyAlways \/ (Len(queue) = 0 /\ ~closed), "done")
  /\ mutex' = Nobody
  /\ UNCHANGED <<closed, op, arg, res, puts, ops>>

Close(t) ==
  /\ pc[t] = "crit" /\ op[t] = "close"
  /\ closed' = TRUE
  /\ Leave(t, Bug # "close_silent", "done")
  /\ mutex' = Nobody
  /\ UNCHANGED <<queue, op, arg, res, puts, ops>>

Take(t) ==
  /\ pc[t] = "crit" /\ op[t] = "take"
  /\ mutex' = Nobody
  /\ IF queue # <<>> /\ ~(Bug = "close_drops" /\ closed)
     THEN /\ res' = [res EXCEPT ![t] = Head(queue)]
          /\ queue' = Tail(queue)
          /\ Leave(t, FALSE, "done")
     ELSE IF closed \/ (Bug = "no_recheck" /\ arg[t] = 1)
     THEN /\ res' = [res EXCEPT ![t] = 0]
          /\ Leave(t, FALSE, "done")
          /\ UNCHANGED queue
     ELSE /\ Leave(t, FALSE, "wait")
          /\ UNCHANGED <<queue, res>>
  /\ arg' = IF pc'[t] = "wait" /\ Bug = "no_recheck" THEN [arg EXCEPT ![t] = 1] ELSE arg
  /\ UNCHANGED <<closed, op, puts, ops>>

Spurious(t) ==
  /\ pc[t] = "wait"
  /\ pc' = [pc EXCEPT ![t] = "relock"]
  /\ UNCHANGED <<mutex, queue, closed, op, arg, res, puts, ops>>

Return(t) ==
  /\ pc[t] = "done"
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ op' = [op EXCEPT ![t] = "none"]
  /\ arg' = [arg EXCEPT ![t] = 0]
  /\ res' = [res EXCEPT ![t] = 0]
  /\ UNCHANGED <<mutex, queue, closed, puts, ops>>

Run(t) == Acquire(t) \/ Put(t) \/ Close(t) \/ Take(t) \/ Return(t)
Next == \E t \in Threads : Run(t) \/ Spurious(t) \/ \E o \in {"put", "take", "close"} : Begin(t, o)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Acquire(t)) /\ WF_vars(Run(t))

\* ------------------------------------------------------------- refinement
absPend == [t \in Threads |->
  IF pc[t] = "idle" THEN [op |-> "none", v |-> 0, done |-> FALSE, r |-> 0]
  ELSE [op |-> op[t], v |-> arg[t], done |-> pc[t] = "done", r |-> res[t]]]
C == INSTANCE Chan WITH pend <- absPend
AbsNext == \E t \in Threads :
  \/ \E o \in {"put", "take", "close"}, v \in 0..MaxPuts : C!Call(t, o, v)
  \/ C!Lin(t)
  \/ \E r \in 0..MaxPuts : C!Ret(t, r)
Refines == C!ChanInit /\ [][AbsNext]_<<queue, closed, absPend>>

\* No schedule leaves a thread waiting that the abstract channel would serve
NoStrandedWaiter == (\A t \in Threads : pc[t] \in {"idle", "wait"}) => C!Quiescent
\* after close every call completes
CloseReleases == closed ~> (\A t \in Threads : pc[t] # "wait")
Completes == \A t \in Threads : (pc[t] = "lock" /\ op[t] # "take") ~> (pc[t] = "idle")
=============================================================================
