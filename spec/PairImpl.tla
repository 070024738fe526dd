------------------------------ MODULE PairImpl ------------------------------
(* Two sessions, each with sending threads, a receiving and a dispatching    *)
(* thread, joined by two pipes of messages; handlers answer requests, one of *)
(* them after a request of its own in the other direction.  Side 0 may be    *)
(* destroyed or the pipes closed at any moment.  Every step the applications *)
(* see goes through Pair!Step.                                               *)
EXTENDS Pair
CONSTANTS Plan,      \* thread -> [side, ids]: what it sends, in order
          Reqs,      \* the ids that are requests (the rest are events)
          Nest,      \* id -> the id of the request its handler sends
          MayClose, MayDestroy,
          Variant    \* "ok", or a broken design that must be detected
VARIABLES p, pc, at, pipe, open, mutex, inbox, inboxClosed, cur, fut, failed
vars == <<p, pc, at, pipe, open, mutex, inbox, inboxClosed, cur, fut, failed>>
PlanA == 1 :> [side |-> 0, ids |-> <<1, 2>>] @@ 2 :> [side |-> 1, ids |-> <<3>>]
PlanB == 1 :> [side |-> 0, ids |-> <<1>>] @@ 2 :> [side |-> 0, ids |-> <<2>>] @@ 3 :> [side |-> 1, ids |-> <<3>>]
PlanC == 1 :> [side |-> 0, ids |-> <<1, 2>>] @@ 2 :> [side |-> 0, ids |-> <<4>>] @@ 3 :> [side |-> 1, ids |-> <<3, 5>>]
NestA == 1 :> 11
NestC == 1 :> 11 @@ 4 :> 14
NoNest == [x \in {} |-> 0]

Apps == DOMAIN Plan
Recv(s) == 100 + s
Disp(s) == 200 + s
Dtor == 300
Side(t) == IF t \in Apps THEN Plan[t].side ELSE t % 100
None == [k |-> "none", id |-> 0]
Kind(id) == IF id \in Reqs THEN "req" ELSE "evt"
AllReqs == Reqs \cup {Nest[x] : x \in DOMAIN Nest}
Ev(e) == p' = Step(p, e)
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Init == /\ p = Start
        /\ pc = [t \in Apps \cup {Recv(0), Recv(1), Disp(0), Disp(1), Dtor} |-> "start"]
        /\ at = [t \in Apps |-> 1]
        /\ pipe = [s \in {0, 1} |-> <<>>] /\ open = [s \in {0, 1} |-> TRUE] /\ mutex = [s \in {0, 1} |-> 0]
        /\ inbox = [s \in {0, 1} |-> <<>>] /\ inboxClosed = {} /\ cur = [t \in {Recv(0), Recv(1), Disp(0), Disp(1)} |-> None]
        /\ fut = [i \in AllReqs |-> [ready |-> 0, ok |-> 0, v |-> 0]] /\ failed = {}
\* what thread t is sending now
Out(t) == IF t \in Apps THEN [k |-> Kind(Plan[t].ids[at[t]]), id |-> Plan[t].ids[at[t]]]
          ELSE IF pc[t] \in {"ncall", "nlock", "nwrite", "nunlock", "nret"} THEN [k |-> "req", id |-> Nest[cur[t].id]]
          ELSE [k |-> "resp", id |-> cur[t].id]
\* the send: call, lock, write, unlock, return (labels with prefix x)
Call(t, a, b) == /\ pc[t] = a /\ Go(t, b) /\ Ev([e |-> "Send", s |-> Side(t), k |-> Out(t).k, id |-> Out(t).id])
                 /\ UNCHANGED <<at, pipe, open, mutex, inbox, inboxClosed, cur, fut, failed>>
Lock(t, a, b) == /\ pc[t] = a /\ Go(t, b)
                 /\ IF Variant = "nolock" THEN UNCHANGED mutex ELSE mutex[Side(t)] = 0 /\ mutex' = [mutex EXCEPT ![Side(t)] = t]
                 /\ UNCHANGED <<p, at, pipe, open, inbox, inboxClosed, cur, fut, failed>>
Write(t, a, b) == /\ pc[t] = a /\ Go(t, b)
                  /\ IF open[Side(t)] THEN /\ pipe' = [pipe EXCEPT ![Side(t)] = IF Variant = "lifo" /\ Len(@) > 1 THEN <<Out(t)>> \o @ ELSE Append(@, Out(t))]
                                           /\ UNCHANGED <<fut, failed>>
                     ELSE /\ failed' = IF Out(t).k = "req" THEN failed \cup {Out(t).id} ELSE failed
                          /\ fut' = IF Out(t).k = "req" THEN [fut EXCEPT ![Out(t).id] = [ready |-> 1, ok |-> 0, v |-> 9998]] ELSE fut
                          /\ UNCHANGED pipe
                  /\ UNCHANGED <<p, at, open, mutex, inbox, inboxClosed, cur>>
Unlock(t, a, b) == /\ pc[t] = a /\ Go(t, b) /\ mutex' = [mutex EXCEPT ![Side(t)] = 0]
                   /\ UNCHANGED <<p, at, pipe, open, inbox, inboxClosed, cur, fut, failed>>
Ret(t, a, b) == /\ pc[t] = a /\ Go(t, b)
                /\ Ev([e |-> "SendRet", s |-> Side(t), id |-> Out(t).id, r |-> IF Out(t).id \in failed THEN 0 ELSE 2])
                /\ at' = IF t \in Apps THEN [at EXCEPT ![t] = @ + 1] ELSE at
                /\ UNCHANGED <<pipe, open, mutex, inbox, inboxClosed, cur, fut, failed>>
App(t) == \/ at[t] <= Len(Plan[t].ids) /\ Call(t, "start", "lock")
          \/ Lock(t, "lock", "write") \/ Write(t, "write", "unlock") \/ Unlock(t, "unlock", "ret") \/ Ret(t, "ret", "start")

R1(s) == LET t == Recv(s) IN
  /\ pc[t] = "start"
  /\ \/ /\ open[1 - s] /\ pipe[1 - s] # <<>> /\ Go(t, "got")
        /\ cur' = [cur EXCEPT ![t] = Head(pipe[1 - s])] /\ pipe' = [pipe EXCEPT ![1 - s] = Tail(@)]
     \/ /\ ~open[1 - s] /\ Go(t, "close") /\ UNCHANGED <<cur, pipe>>
  /\ UNCHANGED <<p, at, open, mutex, inbox, inboxClosed, fut, failed>>
R2(s) == LET t == Recv(s) x == cur[t] IN
  /\ pc[t] = "got" /\ Go(t, "start")
  /\ IF x.k = "resp"
     THEN IF Variant = "queueresp" THEN inbox' = [inbox EXCEPT ![s] = Append(@, x)] /\ UNCHANGED fut
          ELSE fut' = [fut EXCEPT ![x.id] = [ready |-> 1, ok |-> 1, v |-> 100 + x.id]] /\ UNCHANGED inbox
     ELSE inbox' = (IF s \in inboxClosed THEN inbox ELSE [inbox EXCEPT ![s] = Append(@, x)]) /\ UNCHANGED fut
  /\ UNCHANGED <<p, at, pipe, open, mutex, inboxClosed, cur, failed>>
R3(s) == /\ pc[Recv(s)] = "close" /\ Go(Recv(s), "done") /\ Ev([e |-> "OnClose", s |-> s])
         /\ UNCHANGED <<at, pipe, open, mutex, inbox, inboxClosed, cur, fut, failed>>
RecvT(s) == R1(s) \/ R2(s) \/ R3(s)

D1(s) == LET t == Disp(s) IN
  /\ pc[t] = "start"
  /\ \/ inbox[s] # <<>> /\ cur' = [cur EXCEPT ![t] = Head(inbox[s])] /\ inbox' = [inbox EXCEPT ![s] = Tail(@)] /\ Go(t, "begin")
     \/ inbox[s] = <<>> /\ s \in inboxClosed /\ Go(t, "done") /\ UNCHANGED <<cur, inbox>>
  /\ UNCHANGED <<p, at, pipe, open, mutex, inboxClosed, fut, failed>>
D2(s) == LET t == Disp(s) x == cur[t] IN
  /\ pc[t] = "begin"
  /\ IF x.k = "resp" THEN fut' = [fut EXCEPT ![x.id] = [ready |-> 1, ok |-> 1, v |-> 100 + x.id]] /\ Go(t, "start") /\ UNCHANGED p
     ELSE /\ Ev([e |-> "HBegin", s |-> s, k |-> x.k, id |-> x.id, good |-> 1]) /\ UNCHANGED fut
          /\ Go(t, IF x.k = "evt" THEN "end" ELSE IF x.id \in DOMAIN Nest THEN "ncall" ELSE "resp")
  /\ UNCHANGED <<at, pipe, open, mutex, inbox, inboxClosed, cur, failed>>
DWait(s) == LET t == Disp(s) id == Nest[cur[t].id] IN
  /\ pc[t] = "nwait" /\ fut[id].ready = 1 /\ Go(t, "resp")
  /\ Ev([e |-> "Fut", s |-> s, id |-> id, ready |-> 1, ok |-> fut[id].ok, v |-> fut[id].v])
  /\ UNCHANGED <<at, pipe, open, mutex, inbox, inboxClosed, cur, fut, failed>>
D3(s) == LET t == Disp(s) IN
  /\ pc[t] = "resp" /\ Go(t, "lock") /\ Ev([e |-> "Resp", s |-> s, id |-> cur[t].id, ok |-> 1, v |-> 100 + cur[t].id])
  /\ UNCHANGED <<at, pipe, open, mutex, inbox, inboxClosed, cur, fut, failed>>
D4(s) == LET t == Disp(s) IN
  /\ pc[t] = "end" /\ Go(t, "start") /\ Ev([e |-> "HEnd", s |-> s, id |-> cur[t].id])
  /\ UNCHANGED <<at, pipe, open, mutex, inbox, inboxClosed, cur, fut, failed>>
DispT(s) == LET t == Disp(s) IN
  \/ D1(s) \/ D2(s) \/ DWait(s) \/ D3(s) \/ D4(s)
  \/ Call(t, "ncall", "nlock") \/ Lock(t, "nlock", "nwrite") \/ Write(t, "nwrite", "nunlock") \/ Unlock(t, "nunlock", "nret") \/ Ret(t, "nret", "nwait")
  \/ Lock(t, "lock", "write") \/ Write(t, "write", "unlock") \/ Unlock(t, "unlock", "end")

\* side 0 is destroyed once its application has finished sending
SentAll(s) == \A t \in Apps : Plan[t].side = s => pc[t] = "start" /\ at[t] > Len(Plan[t].ids)
T1 == /\ MayDestroy /\ pc[Dtor] = "start" /\ SentAll(0) /\ Go(Dtor, "inbox") /\ Ev([e |-> "Closing"])
      /\ UNCHANGED <<at, pipe, open, mutex, inbox, inboxClosed, cur, fut, failed>>
T2 == /\ pc[Dtor] = "inbox" /\ Go(Dtor, "close") /\ inboxClosed' = inboxClosed \cup {0}
      /\ UNCHANGED <<p, at, pipe, open, mutex, inbox, cur, fut, failed>>
T3 == \E s \in {0, 1} : /\ pc[Dtor] = "close" /\ open[s] /\ open' = [open EXCEPT ![s] = FALSE]
                        /\ UNCHANGED <<p, pc, at, pipe, mutex, inbox, inboxClosed, cur, fut, failed>>
T4 == /\ pc[Dtor] = "close" /\ ~open[0] /\ ~open[1] /\ Go(Dtor, "join")
      /\ UNCHANGED <<p, at, pipe, open, mutex, inbox, inboxClosed, cur, fut, failed>>
T5 == /\ pc[Dtor] = "join" /\ pc[Recv(0)] = "done" /\ pc[Disp(0)] = "done" /\ Go(Dtor, "done") /\ Ev([e |-> "DtorRet", s |-> 0])
      /\ UNCHANGED <<at, pipe, open, mutex, inbox, inboxClosed, cur, fut, failed>>
C1 == /\ MayClose /\ ~p.closing /\ open' = [s \in {0, 1} |-> FALSE] /\ Ev([e |-> "Closing"])
      /\ UNCHANGED <<pc, at, pipe, mutex, inbox, inboxClosed, cur, fut, failed>>
Internal == (\E t \in Apps : App(t)) \/ (\E s \in {0, 1} : RecvT(s) \/ DispT(s)) \/ T2 \/ T3 \/ T4 \/ T5
Next == Internal \/ T1 \/ C1
Spec == Init /\ [][Next]_vars
Fair == Spec /\ (\A t \in Apps : WF_vars(App(t))) /\ (\A s \in {0, 1} : WF_vars(RecvT(s)) /\ WF_vars(DispT(s))) /\ WF_vars(T2 \/ T3 \/ T4 \/ T5)

NoBad == ~p.bad
FutOK == \A i \in DOMAIN p.msg : (p.msg[i].k = "req" /\ p.msg[i].ret /\ fut[i].ready = 1) =>
            ~Step(p, [e |-> "Fut", s |-> 0, id |-> i, ready |-> 1, ok |-> fut[i].ok, v |-> fut[i].v]).bad
QuietOK == ~ENABLED Internal =>
             /\ ~Step(p, [e |-> "Quiesce"]).bad
             /\ pc[Dtor] \in {"start", "done"}
             /\ ~p.closing => \A i \in DOMAIN p.msg : p.msg[i].k = "req" => fut[i].ready = 1
\* without a close every request is answered; a close is always noticed
Live == /\ \A i \in Reqs : (i \in DOMAIN p.msg) ~> (p.closing \/ fut[i].ready = 1)
        /\ p.closing ~> (p.nclose[0] = 1 /\ p.nclose[1] = 1)
        /\ (pc[Dtor] # "start") ~> (pc[Dtor] = "done")
=============================================================================
