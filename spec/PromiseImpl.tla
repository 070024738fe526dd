----------------------------- MODULE PromiseImpl ----------------------------
(* promise/future as built: mutex, condition variable, value and a flag.     *)
EXTENDS Naturals, FiniteSets
CONSTANTS Threads, MaxOps, Bug   \* Bug: a wrong variant, or none
VARIABLES mutex, val, hasVal, pc, op, res, ops, started
vars == <<mutex, val, hasVal, pc, op, res, ops, started>>
Nobody == 99
V == 7
Init == /\ mutex = Nobody /\ val = 0 /\ hasVal = FALSE /\ started = FALSE
        /\ pc = [t \in Threads |-> "idle"] /\ op = [t \in Threads |-> "none"]
        /\ res = [t \in Threads |-> 0] /\ ops = [t \in Threads |-> 0]
Begin(t, o) ==
  /\ pc[t] = "idle" /\ ops[t] < MaxOps /\ (o = "set" => ~started)
  /\ started' = (started \/ o = "set")
  /\ pc' = [pc EXCEPT ![t] = "lock"] /\ op' = [op EXCEPT ![t] = o]
  /\ ops' = [ops EXCEPT ![t] = @ + 1] /\ UNCHANGED <<mutex, val, hasVal, res>>
Acquire(t) ==
  /\ pc[t] \in {"lock", "relock", "timeout"} /\ mutex = Nobody
  /\ mutex' = t
  /\ pc' = [pc EXCEPT ![t] = IF @ = "timeout" THEN "last" ELSE "crit"]
  /\ UNCHANGED <<val, hasVal, op, res, ops, started>>
Set(t) ==
  /\ pc[t] = "crit" /\ op[t] = "set"
  /\ val' = V /\ hasVal' = TRUE /\ mutex' = Nobody
  /\ IF Bug = "notify_one" /\ \E u \in Threads : pc[u] = "wait"
     THEN \E u \in Threads : pc[u] = "wait" /\ pc' = [pc EXCEPT ![t] = "done", ![u] = "relock"]
     ELSE pc' = [u \in Threads |-> IF u = t THEN "done" ELSE IF pc[u] = "wait" THEN "relock" ELSE pc[u]]
  /\ UNCHANGED <<op, res, ops, started>>
Wait(t) ==
  /\ pc[t] \in {"crit", "last"} /\ op[t] # "set"
  /\ mutex' = Nobody
  /\ IF hasVal \/ (Bug = "no_recheck" /\ res[t] = 9)
     THEN /\ pc' = [pc EXCEPT ![t] = "done"]
          /\ res' = [res EXCEPT ![t] = CASE op[t] = "get" -> val [] op[t] = "wait" -> 0 [] OTHER -> 1]
     ELSE IF pc[t] = "last" THEN pc' = [pc EXCEPT ![t] = "done"] /\ res' = [res EXCEPT ![t] = 0]
     ELSE pc' = [pc EXCEPT ![t] = "wait"] /\ res' = IF Bug = "no_recheck" THEN [res EXCEPT ![t] = 9] ELSE res
  /\ UNCHANGED <<val, hasVal, op, ops, started>>
Spurious(t) == pc[t] = "wait" /\ pc' = [pc EXCEPT ![t] = "relock"]
               /\ UNCHANGED <<mutex, val, hasVal, op, res, ops, started>>
Timeout(t) == pc[t] = "wait" /\ op[t] = "twait" /\ pc' = [pc EXCEPT ![t] = "timeout"]
              /\ UNCHANGED <<mutex, val, hasVal, op, res, ops, started>>
Return(t) == /\ pc[t] = "done" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ op' = [op EXCEPT ![t] = "none"]
             /\ res' = [res EXCEPT ![t] = 0] /\ UNCHANGED <<mutex, val, hasVal, ops, started>>
Run(t) == Acquire(t) \/ Set(t) \/ Wait(t) \/ Timeout(t) \/ Return(t)
Next == \E t \in Threads : Run(t) \/ Spurious(t) \/ \E o \in {"set", "get", "wait", "twait"} : Begin(t, o)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Acquire(t)) /\ WF_vars(Run(t)) /\ SF_vars(Timeout(t))
absPend == [t \in Threads |->
  IF pc[t] = "idle" THEN [op |-> "none", v |-> 0, done |-> FALSE, r |-> 0]
  ELSE [op |-> op[t], v |-> IF op[t] = "set" THEN V ELSE 0, done |-> pc[t] = "done", r |-> res[t]]]
A == INSTANCE Promise WITH pend <- absPend
AbsNext == \E t \in Threads :
  \/ \E o \in {"set", "get", "wait", "twait"}, v \in {0, V} : A!Call(t, o, v)
  \/ A!Lin(t) \/ \E r \in {0, 1, V} : A!Ret(t, r)
Refines == A!PInit /\ [][AbsNext]_<<val, absPend>>
NoStranded == (\A t \in Threads : pc[t] \in {"idle", "wait"} /\ op[t] # "twait") => A!Quiescent
Delivered == hasVal ~> (\A t \in Threads : pc[t] # "wait")
TimedEnds == \A t \in Threads : (op[t] = "twait") ~> (pc[t] = "idle")
=============================================================================
