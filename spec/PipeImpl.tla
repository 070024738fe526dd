------------------------------ MODULE PipeImpl ------------------------------
(* The pipe as it is built: mutex, condition variable, byte queue, closed    *)
(* flag; a write notifies only when the queue was empty; a read that needs   *)
(* more bytes goes back to waiting.                                          *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Threads, MaxOps, MaxLen, NotifyOnlyEmpty, Bug   \* Bug: a wrong variant, or none
VARIABLES mutex, data, closed, pc, op, n, buf, res, ops, made
vars == <<mutex, data, closed, pc, op, n, buf, res, ops, made>>
Nobody == 99

Init ==
  /\ mutex = Nobody /\ data = <<>> /\ closed = FALSE /\ made = 0
  /\ pc = [t \in Threads |-> "idle"] /\ op = [t \in Threads |-> "none"]
  /\ n = [t \in Threads |-> 0] /\ buf = [t \in Threads |-> <<>>]
  /\ res = [t \in Threads |-> 0] /\ ops = [t \in Threads |-> 0]

Begin(t, o, k) ==
  /\ pc[t] = "idle" /\ ops[t] < MaxOps
  /\ pc' = [pc EXCEPT ![t] = "lock"]
  /\ op' = [op EXCEPT ![t] = o]
  /\ n' = [n EXCEPT ![t] = IF o \in {"read", "write"} THEN k ELSE 0]
  /\ buf' = [buf EXCEPT ![t] = IF o = "write" THEN [i \in 1..k |-> made + i] ELSE <<>>]
  /\ made' = IF o = "write" THEN made + k ELSE made
  /\ ops' = [ops EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<mutex, data, closed, res>>

Acquire(t) ==
  /\ pc[t] \in {"lock", "relock"} /\ mutex = Nobody
  /\ mutex' = t /\ pc' = [pc EXCEPT ![t] = "crit"]
  /\ UNCHANGED <<data, closed, op, n, buf, res, ops, made>>

Leave(t, all, next) ==
  /\ mutex' = Nobody
  /\ IF Bug = "notify_one" /\ all /\ \E u \in Threads : pc[u] = "wait"
     THEN \E u \in Threads : pc[u] = "wait" /\ pc' = [pc EXCEPT ![t] = next, ![u] = "relock"]
     ELSE pc' = [u \in Threads |-> IF u = t THEN next
                              ELSE IF all /\ pc[u] = "wait" THEN "relock" ELSE pc[u]]

Write(t) ==
  /\ pc[t] = "crit" /\ op[t] = "write"
  /\ IF closed /\ Bug # "write_after_close"
     THEN Leave(t, FALSE, "done") /\ UNCHANGED <<data, res>>
     ELSE /\ data' = data \o buf[t]
          /\ Leave(t, Len(buf[t]) > 0 /\ (~NotifyOnlyEmpty \/ Len(data) = 0), "done")
          /\ res' = [res EXCEPT ![t] = 1]
  /\ UNCHANGED <<closed, op, n, buf, ops, made>>

Close(t) ==
  /\ pc[t] = "crit" /\ op[t] = "close"
  /\ closed' = TRUE
  /\ Leave(t, Bug # "close_silent", "done")
  /\ UNCHANGED <<data, op, n, buf, res, ops, made>>

\* one pass of the read loop: wait, or give up on close, or collect
Read(t) ==
  /\ pc[t] = "crit" /\ op[t] = "read"
  /\ IF closed
     THEN /\ res' = [res EXCEPT ![t] = Len(buf[t])]
          /\ Leave(t, FALSE, "done")
          /\ UNCHANGED <<data, buf>>
     ELSE IF data = <<>>
     THEN Leave(t, FALSE, "wait") /\ UNCHANGED <<data, buf, res>>
     ELSE LET room == n[t] - Len(buf[t])
              k == IF room < Len(data) THEN room ELSE Len(data)
          IN /\ buf' = [buf EXCEPT ![t] = @ \o SubSeq(data, 1, k)]
             /\ data' = SubSeq(data, k + 1 + IF Bug = "drops" /\ k = room THEN 1 ELSE 0, Len(data))
             /\ IF k = room THEN /\ res' = [res EXCEPT ![t] = n[t]]
                                 /\ Leave(t, FALSE, "full")
                            ELSE Leave(t, FALSE, "wait") /\ UNCHANGED res
  /\ UNCHANGED <<closed, op, n, ops, made>>

\* separates the (abstract) last grab from the (abstract) completion
Full(t) ==
  /\ pc[t] = "full" /\ pc' = [pc EXCEPT ![t] = "done"]
  /\ UNCHANGED <<mutex, data, closed, op, n, buf, res, ops, made>>

Spurious(t) ==
  /\ pc[t] = "wait" /\ pc' = [pc EXCEPT ![t] = "relock"]
  /\ UNCHANGED <<mutex, data, closed, op, n, buf, res, ops, made>>

Return(t) ==
  /\ pc[t] = "done" /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ op' = [op EXCEPT ![t] = "none"] /\ n' = [n EXCEPT ![t] = 0]
  /\ buf' = [buf EXCEPT ![t] = <<>>] /\ res' = [res EXCEPT ![t] = 0]
  /\ UNCHANGED <<mutex, data, closed, ops, made>>

Run(t) == Acquire(t) \/ Write(t) \/ Close(t) \/ Read(t) \/ Full(t) \/ Return(t)
Next == \E t \in Threads : Run(t) \/ Spurious(t)
          \/ Begin(t, "close", 1)
          \/ \E k \in 1..MaxLen : Begin(t, "read", k) \/ Begin(t, "write", k)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Acquire(t)) /\ WF_vars(Run(t))

absPend == [t \in Threads |->
  IF pc[t] = "idle" THEN [op |-> "none", n |-> 0, d |-> <<>>, done |-> FALSE, r |-> 0]
  ELSE [op |-> op[t], n |-> n[t], d |-> buf[t], done |-> pc[t] = "done",
        r |-> IF pc[t] = "done" THEN res[t] ELSE 0]]
P == INSTANCE Pipe WITH pend <- absPend
Top == 2 * MaxOps * MaxLen
AbsNext == \E t \in Threads :
  \/ \E k \in 0..MaxLen : P!Call(t, "close", 0, <<>>) \/ P!Call(t, "read", k, <<>>)
                          \/ P!Call(t, "write", k, [i \in 1..k |-> made + i])
  \/ P!LinWrite(t) \/ P!LinClose(t) \/ P!LinRead(t)
  \/ \E k \in 1..Top : P!Grab(t, k)
  \/ \E k \in 0..MaxLen : P!Ret(t, k, absPend[t].d)
Refines == P!PipeInit /\ [][AbsNext]_<<data, closed, absPend>>
NoStrandedReader == (\A t \in Threads : pc[t] \in {"idle", "wait"}) => P!Quiescent
CloseReleases == closed ~> (\A t \in Threads : pc[t] # "wait")
\* the bytes in the pipe are in the order they were written
InOrder == \A i, j \in 1..Len(data) : i < j => data[i] # data[j]
=============================================================================
