-------------------------------- MODULE Chan --------------------------------
(* What a user of the channel observes: a linearizable FIFO with close.      *)
(* A call is pending from Call to Ret and takes effect at one Lin step in    *)
(* between.                                                                  *)
EXTENDS Naturals, Sequences

CONSTANT Threads
VARIABLES queue, closed, pend
chanVars == <<queue, closed, pend>>

None == [op |-> "none", v |-> 0, done |-> FALSE, r |-> 0]
Empty == 0                              \* result of a take that found nothing

ChanInit == queue = <<>> /\ closed = FALSE /\ pend = [t \in Threads |-> None]

Call(t, op, v) ==
  /\ pend[t] = None
  /\ pend' = [pend EXCEPT ![t] = [op |-> op, v |-> v, done |-> FALSE, r |-> 0]]
  /\ UNCHANGED <<queue, closed>>

\* a take waits only while the channel is empty and open
CanLin(t) ==
  /\ pend[t] # None
  /\ ~pend[t].done
  /\ pend[t].op = "take" => (queue # <<>> \/ closed)

Effect(t, q, c, r) ==
  /\ queue' = q
  /\ closed' = c
  /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].r = r]

Lin(t) ==
  /\ CanLin(t)
  /\ CASE pend[t].op = "put"   -> Effect(t, Append(queue, pend[t].v), closed, 0)
       [] pend[t].op = "close" -> Effect(t, queue, TRUE, 0)
       [] pend[t].op = "take"  -> IF queue # <<>>
                                  THEN Effect(t, Tail(queue), closed, Head(queue))
                                  ELSE Effect(t, queue, closed, Empty)

Ret(t, r) ==
  /\ pend[t].done
  /\ pend[t].r = r
  /\ pend' = [pend EXCEPT ![t] = None]
  /\ UNCHANGED <<queue, closed>>

\* When nothing in the system can move any more, every call still pending must
\* be one that has to wait.
Quiescent == \A t \in Threads : pend[t] = None \/ (~pend[t].done /\ ~CanLin(t))
=============================================================================
