--------------------------------- MODULE Long --------------------------------
(* Long histories.  A history of thousands of operations is recorded as runs *)
(* of consecutive numbers: the n-th message, item, byte or request is number *)
(* n, and a run a..b says that a, a+1, ..., b happened one after the other.  *)
(* The specifications of the channel, the pipe, the session and the encoded  *)
(* values, seen at this distance:                                            *)
(*  Put ch a b     a..b have been given to the queue ch, in this order       *)
(*  Take ch a b    a..b have come out of it                                  *)
(*  Add ch a b     a..b are to be completed, in any order                    *)
(*  Done ch a b    they have been completed, each with its own value         *)
(*  Seq a b        messages with these sequence numbers have been written    *)
(*  Due n, Errs n  so many errors are to be reported; so many have been      *)
(*  RLock n, RUnlock n, WIn, WOut    read locks; the writer is in, out       *)
(*  End            everything has come out and been completed                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Start == [ fifo |-> [x \in {} |-> <<>>], pend |-> [x \in {} |-> {}], seqs |-> {},
           due |-> 0, readers |-> 0, writer |-> 0 ]

Of(f, ch, d) == IF ch \in DOMAIN f THEN f[ch] ELSE d
Set(f, ch, v) == (ch :> v) @@ f
----------------------------------------------------------------------------
\* queues: a sequence of runs, adjacent ones joined
Append1(q, a, b) ==
  IF q # <<>> /\ q[Len(q)][2] + 1 = a THEN [q EXCEPT ![Len(q)] = <<q[Len(q)][1], b>>] ELSE Append(q, <<a, b>>)
CanTake(q, a, b) == q # <<>> /\ a <= b /\ q[1][1] = a /\ b <= q[1][2]
TakeFrom(q, b) == IF q[1][2] = b THEN Tail(q) ELSE [q EXCEPT ![1] = <<b + 1, q[1][2]>>]
\* bags of things to be completed: disjoint runs
AddTo(s, a, b) ==
  LET l == {x \in s : x[2] + 1 = a}
      r == {x \in s : x[1] = b + 1}
      lo == IF l = {} THEN a ELSE (CHOOSE x \in l : TRUE)[1]
      hi == IF r = {} THEN b ELSE (CHOOSE x \in r : TRUE)[2]
  IN (s \ (l \cup r)) \cup {<<lo, hi>>}
Within(s, a, b) == {x \in s : x[1] <= a /\ b <= x[2]}
RemoveFrom(s, a, b) ==
  LET x == CHOOSE y \in Within(s, a, b) : TRUE
  IN (s \ {x}) \cup {y \in {<<x[1], a - 1>>, <<b + 1, x[2]>>} : y[1] <= y[2]}
Disjoint(s, a, b) == \A x \in s : b < x[1] \/ x[2] < a
----------------------------------------------------------------------------
Allowed(m, e) ==
  CASE e.e = "Put" -> e.a <= e.b
    [] e.e = "Take" -> CanTake(Of(m.fifo, e.ch, <<>>), e.a, e.b)
    [] e.e = "Add" -> e.a <= e.b /\ Disjoint(Of(m.pend, e.ch, {}), e.a, e.b)
    [] e.e = "Done" -> e.a <= e.b /\ Within(Of(m.pend, e.ch, {}), e.a, e.b) # {}
    [] e.e = "Seq" -> e.a > 0 /\ e.a <= e.b /\ Disjoint(m.seqs, e.a, e.b)
    [] e.e = "Due" -> TRUE
    [] e.e = "Errs" -> e.n >= m.due /\ e.n <= 2 * m.due
    [] e.e = "RLock" -> m.writer = 0
    [] e.e = "RUnlock" -> e.n <= m.readers
    [] e.e = "WIn" -> m.readers = 0 /\ m.writer = 0
    [] e.e = "WOut" -> m.writer = 1
    [] e.e = "End" -> /\ \A ch \in DOMAIN m.fifo : m.fifo[ch] = <<>>
                      /\ \A ch \in DOMAIN m.pend : m.pend[ch] = {}
                      /\ m.readers = 0 /\ m.writer = 0
    [] OTHER -> FALSE
Step(m, e) ==
  CASE e.e = "Put" -> [m EXCEPT !.fifo = Set(@, e.ch, Append1(Of(@, e.ch, <<>>), e.a, e.b))]
    [] e.e = "Take" -> [m EXCEPT !.fifo = Set(@, e.ch, TakeFrom(@[e.ch], e.b))]
    [] e.e = "Add" -> [m EXCEPT !.pend = Set(@, e.ch, AddTo(Of(@, e.ch, {}), e.a, e.b))]
    [] e.e = "Done" -> [m EXCEPT !.pend = Set(@, e.ch, RemoveFrom(@[e.ch], e.a, e.b))]
    [] e.e = "Seq" -> [m EXCEPT !.seqs = AddTo(@, e.a, e.b)]
    [] e.e = "Due" -> [m EXCEPT !.due = @ + e.n]
    [] e.e = "Errs" -> m
    [] e.e = "RLock" -> [m EXCEPT !.readers = @ + e.n]
    [] e.e = "RUnlock" -> [m EXCEPT !.readers = @ - e.n]
    [] e.e = "WIn" -> [m EXCEPT !.writer = 1]
    [] e.e = "WOut" -> [m EXCEPT !.writer = 0]
    [] e.e = "End" -> m
=============================================================================
