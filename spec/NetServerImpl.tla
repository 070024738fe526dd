---------------------------- MODULE NetServerImpl ----------------------------
(* The algorithm of src/network.cpp: start and stop under a mutex, the       *)
(* accept loop with its stopped flag, over a kernel with one port.           *)
(* Controllers run scripts of start and stop; clients connect.  Every        *)
(* observable step goes through NetServer.                                   *)
EXTENDS NetServer
CONSTANTS Scripts,        \* one per controlling thread: sequences of "S", "T"
          NClients, Busy, HardFaults, SetupFaults, Variant
VARIABLES m, pc, mutex, script, stopped, lst, nextL, mine, acc, back, clients, hf, sf
vars == <<m, pc, mutex, script, stopped, lst, nextL, mine, acc, back, clients, hf, sf>>
P == 5000
S1 == <<"S", "T">>
S2 == <<"S", "S", "T", "T">>
S3 == <<"T", "S", "T">>
ScriptsA == <<S2>>
ScriptsB == <<S1, S3>>
ScriptsC == <<S2, S1>>
Ctl == 1..Len(Scripts)
Cl == {20 + i : i \in 1..NClients}
\* listeners are numbered; lst: the one open in the kernel (0: none); mine: the server's (socket member)
\* acc: accept threads alive: listener number -> pc; back: the backlog
Init == /\ m = IF Busy THEN Step(Start, [e |-> "rawlisten", port |-> P]) ELSE Start
        /\ pc = [t \in Ctl |-> "idle"] /\ mutex = 0 /\ script = [t \in Ctl |-> Scripts[t]] /\ stopped = TRUE
        /\ lst = (IF Busy THEN 99 ELSE 0) /\ nextL = 1 /\ mine = 0 /\ acc = <<>> /\ back = <<>>
        /\ clients = [c \in Cl |-> "idle"] /\ hf = HardFaults /\ sf = SetupFaults
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Ev(e) == m' = Step(m, e)
U(x) == UNCHANGED x
ICall(t) == /\ pc[t] = "idle" /\ script[t] # <<>>
           /\ m' = Step(Step(m, [e |-> "call", op |-> IF Head(script[t]) = "S" THEN "start" ELSE "stop", t |-> t, v |-> 1, port |-> P]), [e |-> "as", t |-> t, tid |-> t])
           /\ Go(t, "lock") /\ U(<<mutex, script, stopped, lst, nextL, mine, acc, back, clients, hf, sf>>)
Lock(t) == /\ pc[t] = "lock" /\ (mutex = 0 \/ Variant = "nomutex") /\ mutex' = t /\ Go(t, "stop1") /\ U(<<m, script, stopped, lst, nextL, mine, acc, back, clients, hf, sf>>)
\* stopWithLock: if (!stopped.exchange(true)) { socket->close(); thread.join(); }
Stop1(t) == /\ pc[t] = "stop1" /\ stopped' = TRUE /\ Go(t, IF stopped THEN "stopped" ELSE IF Variant = "joinfirst" THEN "join" ELSE "close")
            /\ U(<<m, mutex, script, lst, nextL, mine, acc, back, clients, hf, sf>>)
CloseL(mm) == IF lst = mine /\ lst # 0 THEN Step(mm, [e |-> "unlisten", port |-> P]) ELSE mm
Close(t) == /\ pc[t] = "close" /\ m' = CloseL(m) /\ lst' = IF lst = mine THEN 0 ELSE lst
            /\ back' = IF lst = mine THEN <<>> ELSE back
            /\ clients' = [c \in Cl |-> IF lst = mine /\ clients[c] = "waiting" THEN "refused" ELSE clients[c]]
            /\ Go(t, IF Variant = "joinfirst" \/ Variant = "nojoin" THEN "stopped" ELSE "join") /\ U(<<mutex, script, stopped, nextL, mine, acc, hf, sf>>)
Join(t) == /\ pc[t] = "join" /\ acc[mine].k = "exit" /\ Go(t, IF Variant = "joinfirst" THEN "close" ELSE "stopped")
           /\ U(<<m, mutex, script, stopped, lst, nextL, mine, acc, back, clients, hf, sf>>)
\* start: a new socket, bound and listening
Stopped(t) == /\ pc[t] = "stopped"
              /\ IF Head(script[t]) = "T" THEN Go(t, "unlock") /\ U(<<m, lst, nextL, mine, sf>>)
                 ELSE \/ /\ lst = 0 /\ lst' = nextL /\ mine' = nextL /\ nextL' = nextL + 1 /\ Ev([e |-> "listen", port |-> P]) /\ Go(t, "go") /\ U(sf)
                      \/ /\ lst # 0 /\ mine' = 0 /\ Go(t, "failed") /\ U(<<m, lst, nextL, sf>>)
                      \/ /\ sf > 0 /\ sf' = sf - 1 /\ mine' = 0 /\ Ev([e |-> "fault", op |-> "bind", t |-> t]) /\ Go(t, "failed") /\ U(<<lst, nextL>>)
              /\ U(<<mutex, script, stopped, acc, back, clients, hf>>)
Failed(t) == /\ pc[t] = "failed" /\ Ev([e |-> "err", v |-> 1, t |-> t]) /\ Go(t, "unlockfail") /\ U(<<mutex, script, stopped, lst, nextL, mine, acc, back, clients, hf, sf>>)
GoOn(t) == /\ pc[t] = "go" /\ stopped' = FALSE /\ acc' = Append(acc, [k |-> "accept", c |-> 0]) /\ Go(t, "unlock")
           /\ U(<<m, mutex, script, lst, nextL, mine, back, clients, hf, sf>>)
Unlock(t) == /\ pc[t] \in {"unlock", "unlockfail"} /\ mutex' = 0 /\ Go(t, IF pc[t] = "unlock" THEN "retok" ELSE "retfail")
             /\ U(<<m, script, stopped, lst, nextL, mine, acc, back, clients, hf, sf>>)
IRet(t, ok) == /\ pc[t] = (IF ok = 1 THEN "retok" ELSE "retfail")
          /\ Ev([e |-> "ret", op |-> IF Head(script[t]) = "S" THEN "start" ELSE "stop", t |-> t, v |-> 1, ok |-> ok])
          /\ script' = [script EXCEPT ![t] = Tail(@)] /\ Go(t, "idle") /\ U(<<mutex, stopped, lst, nextL, mine, acc, back, clients, hf, sf>>)
\* ---- the accept threads: i is the number of the listener
A(i, l, c) == acc' = [acc EXCEPT ![i] = [k |-> l, c |-> c]]
Accept(i) == /\ acc[i].k = "accept"
             /\ \/ /\ lst = i /\ back # <<>> /\ back' = Tail(back) /\ Ev([e |-> "accept", c |-> Head(back), port |-> P]) /\ A(i, "got", Head(back)) /\ U(hf)
                \/ /\ lst # i /\ A(i, "failed", 0) /\ U(<<m, back, hf>>)
                \/ /\ lst = i /\ hf > 0 /\ hf' = hf - 1 /\ Ev([e |-> "fault", op |-> "accept", t |-> 0]) /\ A(i, "failed", 0) /\ U(back)
             /\ U(<<pc, mutex, script, stopped, lst, nextL, mine, clients, sf>>)
Cb1(i) == /\ acc[i].k = "got" /\ Ev([e |-> "cb", v |-> 1, c |-> acc[i].c]) /\ A(i, "cb", acc[i].c) /\ U(<<pc, mutex, script, stopped, lst, nextL, mine, back, clients, hf, sf>>)
Cb2(i) == /\ acc[i].k = "cb" /\ Ev([e |-> "cbret", v |-> 1, c |-> acc[i].c]) /\ A(i, "accept", 0)
          /\ U(<<pc, mutex, script, stopped, lst, nextL, mine, back, clients, hf, sf>>)
AFail(i) == /\ acc[i].k = "failed" /\ A(i, "exit", 0)
            /\ IF stopped /\ Variant # "noflag" THEN U(m) ELSE Ev([e |-> "err", v |-> 1, t |-> 50 + i])
            /\ U(<<pc, mutex, script, stopped, lst, nextL, mine, back, clients, hf, sf>>)
\* ---- clients (ms = 0: they wait as long as it takes)
Conn(c) == /\ clients[c] = "idle"
           /\ LET m1 == Step(m, [e |-> "call", op |-> "connect", t |-> c, c |-> c, port |-> P, ms |-> 0])
              IN IF lst = 0 THEN m' = Step(m1, [e |-> "refused", c |-> c]) /\ clients' = [clients EXCEPT ![c] = "refused"] /\ U(back)
                 ELSE IF Len(back) < 1 /\ lst # 99 THEN m' = Step(m1, [e |-> "est", c |-> c, port |-> P]) /\ clients' = [clients EXCEPT ![c] = "est"] /\ back' = Append(back, c)
                 ELSE m' = m1 /\ clients' = [clients EXCEPT ![c] = "waiting"] /\ U(back)
           /\ U(<<pc, mutex, script, stopped, lst, nextL, mine, acc, hf, sf>>)
Promote(c) == /\ clients[c] = "waiting" /\ lst # 0 /\ lst # 99 /\ Len(back) < 1 /\ Ev([e |-> "est", c |-> c, port |-> P]) /\ back' = Append(back, c)
              /\ clients' = [clients EXCEPT ![c] = "est"] /\ U(<<pc, mutex, script, stopped, lst, nextL, mine, acc, hf, sf>>)
CRet(c) == /\ clients[c] \in {"est", "refused"}
           /\ LET m1 == IF clients[c] = "refused" THEN Step(m, [e |-> "refused", c |-> c]) ELSE m
              IN m' = Step(m1, [e |-> "ret", op |-> "connect", t |-> c, c |-> c, ok |-> IF clients[c] = "est" THEN 1 ELSE 0, ms |-> 0])
           /\ clients' = [clients EXCEPT ![c] = "end"] /\ U(<<pc, mutex, script, stopped, lst, nextL, mine, acc, back, hf, sf>>)
Next == \/ \E t \in Ctl : ICall(t) \/ Lock(t) \/ Stop1(t) \/ Close(t) \/ Join(t) \/ Stopped(t) \/ Failed(t) \/ GoOn(t) \/ Unlock(t) \/ IRet(t, 0) \/ IRet(t, 1)
        \/ \E i \in 1..Len(acc) : Accept(i) \/ Cb1(i) \/ Cb2(i) \/ AFail(i)
        \/ \E c \in Cl : Conn(c) \/ Promote(c) \/ CRet(c)
Spec == Init /\ [][Next]_vars
NothingBad == m.bad = {}
\* nothing can go on: nobody waits who should not (a raw listener never accepts: clients may wait there)
NotStuck == ENABLED Next \/ Busy \/ Quiet(m).bad = {}
=============================================================================
