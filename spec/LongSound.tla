------------------------------ MODULE LongSound ------------------------------
(* Runs stand for the numbers in them: what Long allows of runs is exactly   *)
(* what a queue and a set of single numbers allow.                           *)
EXTENDS Long
CONSTANT N
VARIABLES q, s, m
vars == <<q, s, m>>
Init == q = <<>> /\ s = {} /\ m = Start
Num(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
Q == Of(m.fifo, "c", <<>>)
P == Of(m.pend, "c", {})
E(x, a, b) == [e |-> x, ch |-> "c", a |-> a, b |-> b]
Pairs == {p \in (1..N) \X (1..N) : p[1] <= p[2]}
Put(a, b) == /\ Len(q) + b - a + 1 <= N
             /\ q' = q \o Num(a, b) /\ m' = Step(m, E("Put", a, b)) /\ UNCHANGED s
Take(a, b) == /\ Allowed(m, E("Take", a, b))
              /\ q' = SubSeq(q, b - a + 2, Len(q)) /\ m' = Step(m, E("Take", a, b)) /\ UNCHANGED s
Add(a, b) == /\ Allowed(m, E("Add", a, b))
             /\ s' = s \cup (a..b) /\ m' = Step(m, E("Add", a, b)) /\ UNCHANGED q
Done(a, b) == /\ Allowed(m, E("Done", a, b))
              /\ s' = s \ (a..b) /\ m' = Step(m, E("Done", a, b)) /\ UNCHANGED q
Next == \E p \in Pairs : Put(p[1], p[2]) \/ Take(p[1], p[2]) \/ Add(p[1], p[2]) \/ Done(p[1], p[2])
Spec == Init /\ [][Next]_vars
\* the runs of a queue, one after the other, are the queue
RECURSIVE Flat(_)
Flat(r) == IF r = <<>> THEN <<>> ELSE Num(r[1][1], r[1][2]) \o Flat(Tail(r))
Same == Flat(Q) = q /\ UNION {x[1]..x[2] : x \in P} = s
Exact ==
  \A p \in Pairs :
    LET a == p[1]  b == p[2]  k == b - a + 1
    IN /\ Allowed(m, E("Take", a, b)) <=> (Len(q) >= k /\ SubSeq(q, 1, k) = Num(a, b))
       /\ Allowed(m, E("Add", a, b)) <=> (a..b) \cap s = {}
       /\ Allowed(m, E("Done", a, b)) <=> (a..b) \subseteq s
AllOut == Allowed(m, [e |-> "End"]) <=> (q = <<>> /\ s = {})
=============================================================================
