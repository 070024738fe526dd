----------------------------- MODULE SessionImpl -----------------------------
(* The algorithm of src/session.cpp: sending threads (sequence counter,      *)
(* response map, send mutex, write), the receiving thread, the dispatching   *)
(* thread with its inbox, handlers, the destructor, and a peer that may      *)
(* send requests, events, responses in any order, duplicates and garbage,    *)
(* close either direction or end the stream at any point.  Every observable  *)
(* step goes through Session!Step; TLC checks that no property is broken.    *)
EXTENDS Session

CONSTANTS Senders,     \* sending threads; sender i sends request i
          InReq,       \* ids of requests from the peer (answered at once)
          InEvt,       \* ids of events from the peer
          MaxExtra,    \* duplicates, unknown responses and bad messages
          MayClose, MayRefuse, MayDestroyEarly,
          Bug          \* a wrong variant of the algorithm, or none
VARIABLES m, pc, seqOf, nextSeq, pend, mutex, ropen, wopen, eof, extra,
          stream, todo, inbox, inboxClosed, cur, fut, refused
vars == <<m, pc, seqOf, nextSeq, pend, mutex, ropen, wopen, eof, extra, stream, todo, inbox, inboxClosed, cur, fut, refused>>

Recv == 101
Disp == 102
Dtor == 103
None == [k |-> "none"]
NoFut == [ready |-> 0, ok |-> 0, v |-> 0]

Ev(e) == m' = Step(m, e)
Go(t, l) == pc' = [pc EXCEPT ![t] = l]

Init ==
  /\ m = Step(Step([Start EXCEPT !.h = 1, !.hok = {1}], [e |-> "Init", sent |-> <<"r">>, late |-> <<>>, onclose |-> 1]), [e |-> "Connect"])
  /\ pc = [t \in Senders \cup {Recv, Disp, Dtor} |-> "start"]
  /\ seqOf = [t \in Senders \cup {Disp} |-> 0]
  /\ nextSeq = 1 /\ pend = {} /\ mutex = 0 /\ ropen = TRUE /\ wopen = TRUE /\ eof = FALSE
  /\ extra = MaxExtra /\ stream = <<>> /\ todo = InReq \cup InEvt /\ inbox = <<>> /\ inboxClosed = FALSE
  /\ cur = [t \in {Recv, Disp} |-> None] /\ fut = [i \in Senders |-> NoFut] /\ refused = FALSE

-----------------------------------------------------------------------------
\* Sending a request: SendCall; seq := nextSeq++; register; lock; open?; write; unlock
S1(t) == /\ pc[t] = "start" /\ Go(t, "seq")
         /\ Ev([e |-> "SendCall", k |-> "req", cmd |-> "q", id |-> t])
         /\ UNCHANGED <<seqOf, nextSeq, pend, mutex, ropen, wopen, eof, extra, stream, todo, inbox, inboxClosed, cur, fut, refused>>
S2(t) == /\ pc[t] = "seq" /\ Go(t, IF Bug = "register_late" THEN "lock" ELSE "reg")
         /\ seqOf' = [seqOf EXCEPT ![t] = nextSeq] /\ nextSeq' = IF Bug = "same_seq" /\ (\E u \in Senders \ {t} : pc[u] = "seq") THEN nextSeq ELSE nextSeq + 1
         /\ UNCHANGED <<m, pend, mutex, ropen, wopen, eof, extra, stream, todo, inbox, inboxClosed, cur, fut, refused>>
S3(t) == /\ pc[t] = "reg" /\ Go(t, IF Bug = "register_late" THEN "sent" ELSE "lock")
         /\ pend' = pend \cup {[seq |-> seqOf[t], id |-> t]}
         /\ UNCHANGED <<m, seqOf, nextSeq, mutex, ropen, wopen, eof, extra, stream, todo, inbox, inboxClosed, cur, fut, refused>>
LockSend(t) == /\ pc[t] = "lock" /\ mutex = 0 /\ mutex' = t /\ Go(t, IF Bug = "no_open_check" THEN "write" ELSE "open")
               /\ UNCHANGED <<m, seqOf, nextSeq, pend, ropen, wopen, eof, extra, stream, todo, inbox, inboxClosed, cur, fut, refused>>
IsOpen(t) == /\ pc[t] = "open"
             /\ IF wopen THEN Go(t, "write") /\ UNCHANGED m
                ELSE Go(t, "unlockfail") /\ Ev([e |-> "Err", h |-> 1])
             /\ UNCHANGED <<seqOf, nextSeq, pend, mutex, ropen, wopen, eof, extra, stream, todo, inbox, inboxClosed, cur, fut, refused>>
Frame(t) == IF t = Disp
            THEN [e |-> "Wire", seq |-> seqOf[t], k |-> "resp", cmd |-> "r", id |-> 0, rs |-> cur[Disp].seq, ok |-> 1, v |-> 500 + cur[Disp].id]
            ELSE [e |-> "Wire", seq |-> seqOf[t], k |-> "req", cmd |-> "q", id |-> t, rs |-> 0, ok |-> 0, v |-> 0]
Write(t) == /\ pc[t] = "write"
            /\ \/ wopen /\ Ev(Frame(t)) /\ Go(t, "unlock") /\ UNCHANGED refused
               \/ ~wopen /\ Go(t, "unlockfail") /\ UNCHANGED <<m, refused>>
               \/ wopen /\ MayRefuse /\ ~refused /\ Ev([e |-> "WRefuse", seq |-> seqOf[t]]) /\ Go(t, "unlockfail") /\ refused' = TRUE
            /\ UNCHANGED <<seqOf, nextSeq, pend, mutex, ropen, wopen, eof, extra, stream, todo, inbox, inboxClosed, cur, fut>>
Unlock(t) == /\ pc[t] \in {"unlock", "unlockfail"} /\ mutex' = 0
             /\ Go(t, IF pc[t] = "unlock" THEN (IF Bug = "register_late" /\ t # Disp THEN "reg" ELSE "sent") ELSE IF t = Disp THEN "sent" ELSE "forget")
             /\ UNCHANGED <<m, seqOf, nextSeq, pend, ropen, wopen, eof, extra, stream, todo, inbox, inboxClosed, cur, fut, refused>>
\* the request failed: forget its handler and resolve the future with an error
S8(t) == /\ pc[t] = "forget" /\ Go(t, "sent")
         /\ pend' = IF Bug = "not_forgotten" THEN pend ELSE {p \in pend : p.seq # seqOf[t]}
         /\ fut' = [fut EXCEPT ![t] = [ready |-> 1, ok |-> 0, v |-> 99]]
         /\ UNCHANGED <<m, seqOf, nextSeq, mutex, ropen, wopen, eof, extra, stream, todo, inbox, inboxClosed, cur, refused>>
S9(t) == /\ t \in Senders /\ pc[t] = "sent" /\ Go(t, "done")
         /\ Ev([e |-> "SendRet", k |-> "req", id |-> t, r |-> 2, ready |-> fut[t].ready, ok |-> fut[t].ok, v |-> fut[t].v])
         /\ UNCHANGED <<seqOf, nextSeq, pend, mutex, ropen, wopen, eof, extra, stream, todo, inbox, inboxClosed, cur, fut, refused>>
Sender(t) == S1(t) \/ S2(t) \/ S3(t) \/ LockSend(t) \/ IsOpen(t) \/ Write(t) \/ Unlock(t) \/ S8(t) \/ S9(t)

-----------------------------------------------------------------------------
\* Receiving: while the reader is open, read a message and process it
R1 == /\ pc[Recv] = "start" /\ Go(Recv, IF ropen THEN "read" ELSE "close")
      /\ UNCHANGED <<m, seqOf, nextSeq, pend, mutex, ropen, wopen, eof, extra, stream, todo, inbox, inboxClosed, cur, fut, refused>>
R2 == /\ pc[Recv] = "read"
      /\ \/ ~ropen /\ Go(Recv, "start") /\ UNCHANGED <<m, stream, cur>>
         \/ ropen /\ stream # <<>> /\ Go(Recv, "process") /\ cur' = [cur EXCEPT ![Recv] = Head(stream)]
            /\ stream' = Tail(stream) /\ Ev(Head(stream))
         \/ ropen /\ stream = <<>> /\ eof /\ Go(Recv, "close") /\ UNCHANGED <<m, stream, cur>>
      /\ UNCHANGED <<seqOf, nextSeq, pend, mutex, ropen, wopen, eof, extra, todo, inbox, inboxClosed, fut, refused>>
R3 == /\ pc[Recv] = "process"
      /\ LET e == cur[Recv]
             p == {x \in pend : x.seq = e.rs}
         IN CASE e.k \in {"req", "evt"} -> /\ inbox' = IF inboxClosed THEN inbox ELSE IF Bug = "lifo" THEN <<e>> \o inbox ELSE Append(inbox, e)
                                           /\ Go(Recv, "start") /\ UNCHANGED <<m, pend, fut>>
              [] e.k = "resp" /\ p # {} -> /\ pend' = IF Bug = "answers_kept" THEN pend ELSE pend \ p
                                           /\ LET i == (CHOOSE x \in p : TRUE).id
                                              IN fut' = [fut EXCEPT ![i] = [ready |-> 1, ok |-> e.ok, v |-> e.v]]
                                           /\ Go(Recv, "start") /\ UNCHANGED <<m, inbox>>
              [] OTHER -> /\ Ev([e |-> "Err", h |-> 1]) /\ Go(Recv, "start")
                          /\ UNCHANGED <<pend, inbox, fut>>
      /\ UNCHANGED <<seqOf, nextSeq, mutex, ropen, wopen, eof, extra, stream, todo, inboxClosed, cur, refused>>
R4 == /\ pc[Recv] = "close" /\ Go(Recv, "done")
      /\ IF Bug = "close_unreported" /\ ~wopen THEN UNCHANGED m ELSE Ev([e |-> "OnClose", n |-> 1])
      /\ UNCHANGED <<seqOf, nextSeq, pend, mutex, ropen, wopen, eof, extra, stream, todo, inbox, inboxClosed, cur, fut, refused>>
RecvThread == R1 \/ R2 \/ R3 \/ R4

-----------------------------------------------------------------------------
\* Dispatching
D1 == /\ pc[Disp] = "start"
      /\ \/ inbox # <<>> /\ cur' = [cur EXCEPT ![Disp] = Head(inbox)] /\ inbox' = Tail(inbox) /\ Go(Disp, "begin")
         \/ inbox = <<>> /\ inboxClosed /\ Go(Disp, "done") /\ UNCHANGED <<cur, inbox>>
      /\ UNCHANGED <<m, seqOf, nextSeq, pend, mutex, ropen, wopen, eof, extra, stream, todo, inboxClosed, fut, refused>>
D2 == /\ pc[Disp] = "begin" /\ Go(Disp, "end")
      /\ Ev([e |-> "HBegin", k |-> cur[Disp].k, cmd |-> cur[Disp].cmd, id |-> cur[Disp].id, good |-> 1, reg |-> 1])
      /\ UNCHANGED <<seqOf, nextSeq, pend, mutex, ropen, wopen, eof, extra, stream, todo, inbox, inboxClosed, cur, fut, refused>>
D3 == /\ pc[Disp] = "end" /\ Ev([e |-> "HEnd", id |-> cur[Disp].id])
      /\ Go(Disp, IF cur[Disp].k = "req" THEN "resp" ELSE "start")
      /\ UNCHANGED <<seqOf, nextSeq, pend, mutex, ropen, wopen, eof, extra, stream, todo, inbox, inboxClosed, cur, fut, refused>>
D4 == /\ pc[Disp] = "resp" /\ Go(Disp, IF Bug = "no_answer_when_busy" /\ inbox # <<>> THEN "start" ELSE "lock")
      /\ Ev([e |-> "Resp", id |-> cur[Disp].id, ok |-> 1, v |-> 500 + cur[Disp].id])
      /\ seqOf' = [seqOf EXCEPT ![Disp] = nextSeq] /\ nextSeq' = nextSeq + 1
      /\ UNCHANGED <<pend, mutex, ropen, wopen, eof, extra, stream, todo, inbox, inboxClosed, cur, fut, refused>>
D5 == /\ pc[Disp] = "sent" /\ Go(Disp, "start")
      /\ Ev([e |-> "Sent", cmd |-> "r", ok |-> 1, v |-> 500 + cur[Disp].id, reg |-> 1])
      /\ UNCHANGED <<seqOf, nextSeq, pend, mutex, ropen, wopen, eof, extra, stream, todo, inbox, inboxClosed, cur, fut, refused>>
DispThread == D1 \/ D2 \/ D3 \/ D4 \/ D5 \/ LockSend(Disp) \/ IsOpen(Disp) \/ Write(Disp) \/ Unlock(Disp)

-----------------------------------------------------------------------------
\* Destruction: allowed when no thread is sending
T1 == /\ pc[Dtor] = "start" /\ \A t \in Senders : pc[t] = "done"
      /\ MayDestroyEarly \/ (todo = {} /\ stream = <<>> /\ inbox = <<>>)
      /\ Go(Dtor, "inbox") /\ Ev([e |-> "DtorCall"])
      /\ UNCHANGED <<seqOf, nextSeq, pend, mutex, ropen, wopen, eof, extra, stream, todo, inbox, inboxClosed, cur, fut, refused>>
T2 == /\ pc[Dtor] = "inbox" /\ Go(Dtor, "reader") /\ inboxClosed' = TRUE
      /\ UNCHANGED <<m, seqOf, nextSeq, pend, mutex, ropen, wopen, eof, extra, stream, todo, inbox, cur, fut, refused>>
T3 == /\ pc[Dtor] = "reader" /\ Go(Dtor, "writer") /\ ropen' = (Bug = "reader_left_open" /\ ropen)
      /\ IF ropen /\ Bug # "reader_left_open" THEN Ev([e |-> "RClosed"]) ELSE UNCHANGED m
      /\ UNCHANGED <<seqOf, nextSeq, pend, mutex, wopen, eof, extra, stream, todo, inbox, inboxClosed, cur, fut, refused>>
T4 == /\ pc[Dtor] = "writer" /\ Go(Dtor, "join1") /\ wopen' = FALSE
      /\ IF wopen THEN Ev([e |-> "WClosed"]) ELSE UNCHANGED m
      /\ UNCHANGED <<seqOf, nextSeq, pend, mutex, ropen, eof, extra, stream, todo, inbox, inboxClosed, cur, fut, refused>>
T5 == /\ pc[Dtor] = "join1" /\ (pc[Recv] = "done" \/ Bug = "no_join") /\ Go(Dtor, "join2")
      /\ UNCHANGED <<m, seqOf, nextSeq, pend, mutex, ropen, wopen, eof, extra, stream, todo, inbox, inboxClosed, cur, fut, refused>>
T6 == /\ pc[Dtor] = "join2" /\ pc[Disp] = "done" /\ Go(Dtor, "done") /\ Ev([e |-> "DtorRet"])
      /\ UNCHANGED <<seqOf, nextSeq, pend, mutex, ropen, wopen, eof, extra, stream, todo, inbox, inboxClosed, cur, fut, refused>>
DtorThread == T2 \/ T3 \/ T4 \/ T5 \/ T6

-----------------------------------------------------------------------------
\* The peer
Feed(e) == stream' = Append(stream, e)
Msg(k, seq, cmd, id, rs, ok, v) == [e |-> "Deliver", k |-> k, seq |-> seq, cmd |-> cmd, id |-> id, rs |-> rs, ok |-> ok, v |-> v]
PSend == \E i \in todo :
           /\ todo' = todo \ {i}
           /\ Feed(IF i \in InReq THEN Msg("req", i, "r", i, 0, 0, 0) ELSE Msg("evt", i, "e", i, 0, 0, 0))
           /\ UNCHANGED <<m, pc, seqOf, nextSeq, pend, mutex, ropen, wopen, eof, extra, inbox, inboxClosed, cur, fut, refused>>
\* answers to requests that are on the wire
Answered1(i) == \E k \in 1..Len(stream) : stream[k].k = "resp" /\ stream[k].rs = m.req[i].seq
PAnswer == \E i \in DOMAIN m.req : \E ok \in {0, 1} :
           /\ m.req[i].st = "out" /\ ~Answered1(i)
           /\ Feed(Msg("resp", 0, "q", 0, m.req[i].seq, ok, IF ok = 1 THEN 600 + i ELSE i))
           /\ UNCHANGED <<m, pc, seqOf, nextSeq, pend, mutex, ropen, wopen, eof, extra, todo, inbox, inboxClosed, cur, fut, refused>>
PExtra == /\ extra > 0 /\ extra' = extra - 1
          /\ \/ \E i \in DOMAIN m.req : m.req[i].st = "res" /\ Feed(Msg("resp", 0, "q", 0, m.req[i].seq, 1, 700))
             \/ Feed(Msg("bad", 0, "", 0, 0, 0, 0))
             \/ \E i \in DOMAIN m.req : m.req[i].st = "failed" /\ Feed(Msg("resp", 0, "q", 0, seqOf[i], 1, 700))
          /\ UNCHANGED <<m, pc, seqOf, nextSeq, pend, mutex, ropen, wopen, eof, todo, inbox, inboxClosed, cur, fut, refused>>
PClose == /\ MayClose
          /\ \/ ropen /\ ~eof /\ ropen' = FALSE /\ Ev([e |-> "RClosed"]) /\ UNCHANGED <<wopen, eof>>
             \/ ropen /\ ~eof /\ eof' = TRUE /\ Ev([e |-> "Eof"]) /\ UNCHANGED <<ropen, wopen>>
             \/ wopen /\ wopen' = FALSE /\ Ev([e |-> "WClosed"]) /\ UNCHANGED <<ropen, eof>>
          /\ UNCHANGED <<pc, seqOf, nextSeq, pend, mutex, extra, stream, todo, inbox, inboxClosed, cur, fut, refused>>
Peer == pc[Dtor] # "done" /\ ~eof /\ (PSend \/ PAnswer \/ PExtra \/ PClose)

Internal == (\E t \in Senders : Sender(t)) \/ RecvThread \/ DispThread \/ DtorThread
Next == Internal \/ T1 \/ Peer
Spec == Init /\ [][Next]_vars
Fair == Spec /\ (\A t \in Senders : WF_vars(Sender(t))) /\ WF_vars(RecvThread) /\ WF_vars(DispThread) /\ WF_vars(DtorThread)

-----------------------------------------------------------------------------
NoBad == m.bad = {}
\* what looking at the futures would show
FutOK == \A i \in DOMAIN m.req : fut[i].ready = 1 =>
           \/ m.req[i].st = "calling"   \* resolved but not yet returned: not observable
           \/ Step(m, [e |-> "Fut", id |-> i, ready |-> 1, ok |-> fut[i].ok, v |-> fut[i].v]).bad = {}
\* when nothing inside the session can move: everything due has happened
QuietOK == ~ENABLED Internal => /\ m.dtor = 0 => Step(m, [e |-> "Quiesce"]).bad = {}
                                /\ m.dtor > 0 => pc[Dtor] = "done"
                                /\ m.dtor = 0 => \A i \in DOMAIN m.req : m.req[i].st \in {"res", "failed"} => fut[i].ready = 1
\* destruction completes, sends return
Live == /\ (m.dtor > 0) ~> (pc[Dtor] = "done")
        /\ \A t \in Senders : (pc[t] # "start") ~> (pc[t] = "done")
        /\ (m.rclosed \/ m.eof) ~> (m.nclose = 1)
=============================================================================
