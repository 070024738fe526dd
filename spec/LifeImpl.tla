------------------------------- MODULE LifeImpl -------------------------------
(* The threads of a session and the objects they make: the receiving thread  *)
(* decodes messages into objects and queues them, the dispatching thread     *)
(* handles and destroys them, senders leave callbacks until the answer       *)
(* comes, the destructor may run at any moment.  Object i belongs to the     *)
(* i-th message, object N + k to the callback of the k-th own request.       *)
EXTENDS Life, TLC
CONSTANTS Kinds,     \* the kinds of the messages: "good", "bad", "resp", "unknown"
          Own,       \* own requests; the answers name them in order
          Raw,       \* a queued object is only destroyed by handling it
          KeepBad,   \* an object that could not be decoded is not destroyed
          TwiceBad,  \* ... or twice
          Early,     \* the object is destroyed before the handler has returned
          Drops      \* the object of an answer is destroyed only if a request waits
VARIABLES m, next, queue, hand, rd, di, de, closed, eof, waiting
vars == <<m, next, queue, hand, rd, di, de, closed, eof, waiting>>
N == Len(Kinds)
Mk(o) == [e |-> "Make", o |-> o]
Kl(o) == [e |-> "Kill", o |-> o]
Us(o) == [e |-> "Use", o |-> o]
Init == /\ m = Steps(Start, [k \in 1..Own |-> Mk(N + k)])
        /\ next = 1 /\ queue = <<>> /\ hand = 0 /\ rd = "run" /\ di = "run" /\ de = "idle"
        /\ closed = FALSE /\ eof = FALSE /\ waiting = 1..Own
\* ---- the receiving thread
Receive ==
  /\ rd = "run" /\ ~eof /\ next <= N
  /\ next' = next + 1
  /\ LET i == next  k == Kinds[i]
         c == Cardinality({j \in 1..i : Kinds[j] = "resp"})
     IN CASE k = "good" -> m' = Steps(m, <<Mk(i)>>) /\ rd' = "put" /\ UNCHANGED waiting
          [] k = "bad" -> m' = Steps(m, <<Mk(i)>> \o (IF KeepBad THEN <<>> ELSE <<Kl(i)>>) \o (IF TwiceBad THEN <<Kl(i)>> ELSE <<>>))
                          /\ UNCHANGED <<rd, waiting>>
          [] k = "resp" ->
               IF c \in waiting
               THEN m' = Steps(m, <<Mk(i), Us(i), Us(N + c), Kl(i), Kl(N + c)>>) /\ waiting' = waiting \ {c} /\ UNCHANGED rd
               ELSE m' = Steps(m, IF Drops THEN <<Mk(i)>> ELSE <<>>) /\ UNCHANGED <<rd, waiting>>
          [] OTHER -> UNCHANGED <<m, rd, waiting>>
  /\ UNCHANGED <<queue, hand, di, de, closed, eof>>
Put == /\ rd = "put" /\ rd' = "run" /\ queue' = Append(queue, next - 1)
       /\ UNCHANGED <<m, next, hand, di, de, closed, eof, waiting>>
ReceiveEnd == /\ rd = "run" /\ eof /\ rd' = "done"
              /\ UNCHANGED <<m, next, queue, hand, di, de, closed, eof, waiting>>
\* ---- the dispatching thread
Take == /\ di = "run" /\ hand = 0 /\ queue # <<>>
        /\ hand' = Head(queue) /\ queue' = Tail(queue)
        /\ m' = Steps(m, IF Early THEN <<Us(Head(queue)), Kl(Head(queue))>> ELSE <<Us(Head(queue))>>)
        /\ UNCHANGED <<next, rd, di, de, closed, eof, waiting>>
Handled == /\ hand # 0 /\ hand' = 0
           /\ m' = Steps(m, IF Early THEN <<Us(hand)>> ELSE <<Us(hand), Kl(hand)>>)
           /\ UNCHANGED <<next, queue, rd, di, de, closed, eof, waiting>>
DispatchEnd == /\ di = "run" /\ hand = 0 /\ queue = <<>> /\ closed /\ di' = "done"
               /\ UNCHANGED <<m, next, queue, hand, rd, de, closed, eof, waiting>>
\* ---- the destructor, and the peer that may close the stream first
PeerCloses == /\ ~eof /\ eof' = TRUE /\ UNCHANGED <<m, next, queue, hand, rd, di, de, closed, waiting>>
D1 == de = "idle" /\ closed' = TRUE /\ de' = "reader" /\ UNCHANGED <<m, next, queue, hand, rd, di, eof, waiting>>
D2 == de = "reader" /\ eof' = TRUE /\ de' = "join" /\ UNCHANGED <<m, next, queue, hand, rd, di, closed, waiting>>
RECURSIVE KillAll(_)
KillAll(S) == IF S = {} THEN <<>> ELSE LET o == CHOOSE x \in S : TRUE IN <<Kl(o)>> \o KillAll(S \ {o})
D3 == /\ de = "join" /\ rd = "done" /\ di = "done" /\ de' = "gone"
      /\ m' = Steps(m, (IF Raw THEN <<>> ELSE [k \in 1..Len(queue) |-> Kl(queue[k])])
                       \o KillAll({N + k : k \in waiting}) \o <<[e |-> "End", n |-> 0]>>)
      /\ queue' = <<>> /\ waiting' = {}
      /\ UNCHANGED <<next, hand, rd, di, closed, eof>>
Next == Receive \/ Put \/ ReceiveEnd \/ Take \/ Handled \/ DispatchEnd \/ PeerCloses \/ D1 \/ D2 \/ D3
Spec == Init /\ [][Next]_vars /\ WF_vars(Next) /\ WF_vars(D1) /\ WF_vars(D2)
NothingBad == m.bad = {}
NoStuck == de = "gone" \/ ENABLED Next
Ends == <>(de = "gone")
K_A == <<"good", "bad", "resp", "good">>
K_B == <<"resp", "resp", "unknown", "good", "bad", "good">>
K_C == <<"good", "good", "bad", "resp", "good", "bad", "resp", "unknown", "good", "resp">>
=============================================================================
