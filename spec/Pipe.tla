-------------------------------- MODULE Pipe --------------------------------
(* What a user of the in-memory pipe observes.  A write takes effect at once *)
(* (its bytes stay together); a read collects bytes from the front in one or *)
(* more grabs and returns once it has at least one byte, or on close.        *)
EXTENDS Naturals, Sequences

CONSTANT Threads
VARIABLES data, closed, pend
pipeVars == <<data, closed, pend>>

None == [op |-> "none", n |-> 0, d |-> <<>>, done |-> FALSE, r |-> 0]
PipeInit == data = <<>> /\ closed = FALSE /\ pend = [t \in Threads |-> None]

Call(t, op, n, d) ==
  /\ pend[t] = None
  /\ pend' = [pend EXCEPT ![t] = [op |-> op, n |-> n, d |-> d, done |-> FALSE, r |-> 0]]
  /\ UNCHANGED <<data, closed>>

Pending(t, op) == pend[t].op = op /\ ~pend[t].done
Done(t, r) == pend' = [pend EXCEPT ![t].done = TRUE, ![t].r = r]

LinWrite(t) ==
  /\ Pending(t, "write")
  /\ data' = IF closed THEN data ELSE data \o pend[t].d
  /\ Done(t, IF closed THEN 0 ELSE 1)
  /\ UNCHANGED closed
LinClose(t) ==
  /\ Pending(t, "close")
  /\ closed' = TRUE
  /\ Done(t, 0)
  /\ UNCHANGED data
LinIsOpen(t) ==
  /\ Pending(t, "isopen")
  /\ Done(t, IF closed THEN 0 ELSE 1)
  /\ UNCHANGED <<data, closed>>
\* for a read, pend.d holds the bytes collected so far
CanGrab(t) == Pending(t, "read") /\ ~closed /\ data # <<>> /\ Len(pend[t].d) < pend[t].n
Grab(t, k) ==
  /\ CanGrab(t)
  /\ k \in 1..Len(data) /\ k <= pend[t].n - Len(pend[t].d)
  /\ pend' = [pend EXCEPT ![t].d = @ \o SubSeq(data, 1, k)]
  /\ data' = SubSeq(data, k + 1, Len(data))
  /\ UNCHANGED closed
CanFinishRead(t) == Pending(t, "read") /\ (closed \/ pend[t].d # <<>>)
LinRead(t) ==
  /\ CanFinishRead(t)
  /\ Done(t, Len(pend[t].d))
  /\ UNCHANGED <<data, closed>>

Ret(t, n, d) ==
  /\ pend[t].done
  /\ pend[t].r = n
  /\ pend[t].op = "read" => pend[t].d = d
  /\ pend' = [pend EXCEPT ![t] = None]
  /\ UNCHANGED <<data, closed>>

\* A read may still be waiting only for bytes that are not there.
Quiescent == \A t \in Threads :
  \/ pend[t] = None
  \/ Pending(t, "read") /\ ~closed /\ data = <<>> /\ Len(pend[t].d) < pend[t].n
=============================================================================
