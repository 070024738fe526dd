------------------------------- MODULE RWMutex -------------------------------
(* What a user of the reader/writer lock and of the scoped locks observes.   *)
EXTENDS Naturals, Integers, FiniteSets

CONSTANTS Threads, Mutexes, Slots
VARIABLES rd, wr, slot, pend
\* rd[m]: read locks held on m; wr[m]: write lock held on m
\* slot[s]: what the scoped lock s holds: NoObj, Released or [m, w]
rwVars == <<rd, wr, slot, pend>>

NoObj == [m |-> -2, w |-> FALSE]
Released == [m |-> -1, w |-> FALSE]
None == [op |-> "none", a |-> 0, b |-> 0, done |-> FALSE]
RWInit == /\ rd = [m \in Mutexes |-> 0] /\ wr = [m \in Mutexes |-> FALSE]
          /\ slot = [s \in Slots |-> NoObj] /\ pend = [t \in Threads |-> None]

Call(t, op, a, b) ==
  /\ pend[t] = None
  /\ pend' = [pend EXCEPT ![t] = [op |-> op, a |-> a, b |-> b, done |-> FALSE]]
  /\ UNCHANGED <<rd, wr, slot>>

\* readers wait only for a writer that holds the lock; a writer waits only
\* for someone who holds it
MayRead(m) == ~wr[m]
MayWrite(m) == ~wr[m] /\ rd[m] = 0
CanLin(t) ==
  /\ pend[t] # None /\ ~pend[t].done
  /\ CASE pend[t].op = "rlock" -> MayRead(pend[t].a)
       [] pend[t].op = "wlock" -> MayWrite(pend[t].a)
       [] pend[t].op = "ctorR" -> MayRead(pend[t].b)
       [] pend[t].op = "ctorW" -> MayWrite(pend[t].b)
       [] OTHER -> TRUE

Done(t) == pend' = [pend EXCEPT ![t].done = TRUE]
AddR(m) == rd' = [rd EXCEPT ![m] = @ + 1] /\ UNCHANGED wr
AddW(m) == wr' = [wr EXCEPT ![m] = TRUE] /\ UNCHANGED rd
Release(x) ==
  IF x.m < 0 THEN UNCHANGED <<rd, wr>>
  ELSE IF x.w THEN wr' = [wr EXCEPT ![x.m] = FALSE] /\ UNCHANGED rd
              ELSE rd' = [rd EXCEPT ![x.m] = @ - 1] /\ UNCHANGED wr

Lin(t) ==
  /\ CanLin(t) /\ Done(t)
  /\ LET a == pend[t].a
         b == pend[t].b
     IN CASE pend[t].op = "rlock" -> AddR(a) /\ UNCHANGED slot
          [] pend[t].op = "wlock" -> AddW(a) /\ UNCHANGED slot
          [] pend[t].op = "runlock" -> Release([m |-> a, w |-> FALSE]) /\ UNCHANGED slot
          [] pend[t].op = "wunlock" -> Release([m |-> a, w |-> TRUE]) /\ UNCHANGED slot
          [] pend[t].op = "ctorR" -> AddR(b) /\ slot' = [slot EXCEPT ![a] = [m |-> b, w |-> FALSE]]
          [] pend[t].op = "ctorW" -> AddW(b) /\ slot' = [slot EXCEPT ![a] = [m |-> b, w |-> TRUE]]
          \* construct b from a: the lock moves, nothing is locked or released
          [] pend[t].op = "move" -> /\ slot' = [slot EXCEPT ![b] = slot[a], ![a] = Released]
                                    /\ UNCHANGED <<rd, wr>>
          \* assign a to b: what b held is released, the lock of a moves
          [] pend[t].op = "assign" -> /\ Release(slot[b])
                                      /\ slot' = [slot EXCEPT ![b] = slot[a], ![a] = Released]
          [] pend[t].op = "dtor" -> /\ Release(slot[a])
                                    /\ slot' = [slot EXCEPT ![a] = NoObj]

Ret(t) == pend[t].done /\ pend' = [pend EXCEPT ![t] = None] /\ UNCHANGED <<rd, wr, slot>>
Quiescent == \A t \in Threads : pend[t] = None \/ (~pend[t].done /\ ~CanLin(t))

Exclusion == \A m \in Mutexes : wr[m] => rd[m] = 0
=============================================================================
