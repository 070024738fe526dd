------------------------------- MODULE Promise ------------------------------
(* What a user of promise/future observes: one shared cell, set once.        *)
EXTENDS Naturals, FiniteSets
CONSTANT Threads
VARIABLES val, pend          \* val = 0: not set
proVars == <<val, pend>>
None == [op |-> "none", v |-> 0, done |-> FALSE, r |-> 0]
PInit == val = 0 /\ pend = [t \in Threads |-> None]
Call(t, op, v) ==
  /\ pend[t] = None
  /\ pend' = [pend EXCEPT ![t] = [op |-> op, v |-> v, done |-> FALSE, r |-> 0]]
  /\ UNCHANGED val
Done(t, r) == pend' = [pend EXCEPT ![t].done = TRUE, ![t].r = r]
CanLin(t) == pend[t] # None /\ ~pend[t].done /\ (pend[t].op \in {"get", "wait"} => val # 0)
Lin(t) ==
  /\ CanLin(t)
  /\ CASE pend[t].op = "set" -> val' = pend[t].v /\ Done(t, 0)
       [] pend[t].op = "get" -> Done(t, val) /\ UNCHANGED val
       [] pend[t].op = "wait" -> Done(t, 0) /\ UNCHANGED val
       \* a timed wait reports whether the value is set when it looks
       [] pend[t].op = "twait" -> Done(t, IF val # 0 THEN 1 ELSE 0) /\ UNCHANGED val
       [] pend[t].op = "valid" -> Done(t, 1) /\ UNCHANGED val
Ret(t, r) ==
  /\ pend[t].done /\ pend[t].r = r
  /\ pend' = [pend EXCEPT ![t] = None] /\ UNCHANGED val
Quiescent == \A t \in Threads : pend[t] = None \/ (~pend[t].done /\ ~CanLin(t))
=============================================================================
