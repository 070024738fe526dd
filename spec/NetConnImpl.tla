----------------------------- MODULE NetConnImpl -----------------------------
(* The algorithm of Socket::Shared in src/socket.cpp: read, write, close and *)
(* isOpen by several threads of side 0, under a readers/writer lock, over a  *)
(* descriptor of a kernel that may shorten, interrupt or reset; side 1 is    *)
(* the network's other end.  Every observable step goes through NetConn.     *)
(* Variant "code" is the algorithm of the code; the others are wrong ones    *)
(* (NetConnImplBad_*.cfg).                                                   *)
EXTENDS NetConn
CONSTANTS Writes,     \* sizes side 0 writes, in order
          PeerWrites, \* sizes side 1 writes
          Reads,      \* sizes side 0 reads
          Closers, Lookers,   \* threads that close / call isOpen
          Cap, Faults, MayReset, Variant
W1 == <<2>>
W2 == <<3, 1>>
W3 == <<2, 3, 1>>
R2 == <<2, 1>>
R3 == <<1, 2, 1>>
R5 == <<1, 2, 1, 1, 2>>
VARIABLES m, pc, fd, lock, kbuf, fin, pclosed, rst, shut, left, todo, got, faults, wi, ri, pw, seen
vars == <<m, pc, fd, lock, kbuf, fin, pclosed, rst, shut, left, todo, got, faults, wi, ri, pw, seen>>
W == 1
R == 2
Threads == {W, R} \cup Closers \cup Lookers
\* fd: "open", "closed" (the kernel's), "none" (the object's s = InvalidSocket)
Init == /\ m = Start /\ pc = [t \in Threads |-> "idle"] /\ fd = [k |-> "open", s |-> TRUE]
        /\ lock = [r |-> {}, w |-> 0] /\ kbuf = [s \in Side |-> 0] /\ fin = [s \in Side |-> FALSE] /\ pclosed = FALSE
        /\ rst = FALSE /\ shut = FALSE /\ left = 0 /\ todo = 0 /\ got = 0 /\ faults = Faults /\ wi = 1 /\ ri = 1 /\ pw = 1 /\ seen = 0
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Ev(e) == m' = Step(m, e)
U(x) == UNCHANGED x
\* ---- the lock: readers exclude a writer
RLock(t, from, to) == /\ pc[t] = from /\ lock.w = 0 /\ lock' = [lock EXCEPT !.r = @ \cup {t}] /\ Go(t, to)
                      /\ U(<<m, fd, kbuf, fin, pclosed, rst, shut, left, todo, got, faults, wi, ri, pw, seen>>)
Drop(t) == lock' = [r |-> lock.r \ {t}, w |-> IF lock.w = t THEN 0 ELSE lock.w]
\* a system call on the descriptor: on a closed one is an error of the code
Use == fd.k = "open"
Fd(e) == IF Use THEN U(m) ELSE Ev([e |-> "BadFd"])

\* ---- write(): n bytes with send() until all is taken
WCall == /\ pc[W] = "idle" /\ wi <= Len(Writes) /\ Ev([e |-> "call", op |-> "write", t |-> W, s |-> 0, n |-> Writes[wi]])
         /\ left' = Writes[wi] /\ wi' = wi + 1 /\ Go(W, "wlock") /\ U(<<fd, lock, kbuf, fin, pclosed, rst, shut, todo, got, faults, ri, pw, seen>>)
WCheck == /\ pc[W] = "wcheck" /\ Go(W, IF ~fd.s THEN "wfail" ELSE IF left = 0 THEN "wok" ELSE "send")
          /\ U(<<m, fd, lock, kbuf, fin, pclosed, rst, shut, left, todo, got, faults, wi, ri, pw, seen>>)
Room == Cap - kbuf[0]
SendErr == shut \/ rst
Send ==
  /\ pc[W] = "send"
  /\ U(<<fd, lock, fin, pclosed, shut, todo, got, wi, ri, pw, seen>>)
  /\ \/ ~Use /\ Ev([e |-> "BadFd"]) /\ Go(W, "wfail") /\ U(<<kbuf, rst, left, faults>>)
     \/ Use /\ SendErr /\ Go(W, "wfail") /\ U(<<m, kbuf, rst, left, faults>>)
     \/ Use /\ ~SendErr /\ faults > 0 /\ faults' = faults - 1 /\ Go(W, IF Variant = "eintr" THEN "wfail" ELSE "send") /\ U(<<m, kbuf, rst, left>>)
     \* the peer is gone: taken, and answered with a reset
     \/ Use /\ ~SendErr /\ pclosed /\ rst' = TRUE /\ Ev([e |-> "rst", c |-> 1]) /\ left' = 0 /\ Go(W, "wok") /\ U(<<kbuf, faults>>)
     \/ /\ Use /\ ~SendErr /\ ~pclosed /\ Room > 0
        /\ \E k \in 1..(IF Room < left THEN Room ELSE left) :
             /\ kbuf' = [kbuf EXCEPT ![0] = @ + k] /\ left' = left - k
             /\ Go(W, IF k = left \/ Variant = "noloop" THEN "wok" ELSE "send") /\ U(<<m, rst, faults>>)
WDone == /\ pc[W] \in {"wok", "wfail"} /\ Drop(W) /\ Go(W, IF pc[W] = "wok" THEN "wretok" ELSE "wretfail")
         /\ U(<<m, fd, kbuf, fin, pclosed, rst, shut, left, todo, got, faults, wi, ri, pw, seen>>)
WRet == /\ pc[W] \in {"wretok", "wretfail"} /\ Ev([e |-> "ret", op |-> "write", t |-> W, s |-> 0, ok |-> IF pc[W] = "wretok" THEN 1 ELSE 0]) /\ Go(W, "idle")
        /\ U(<<fd, lock, kbuf, fin, pclosed, rst, shut, left, todo, got, faults, wi, ri, pw, seen>>)
\* ---- read()
RCall == /\ pc[R] = "idle" /\ ri <= Len(Reads) /\ Ev([e |-> "call", op |-> "read", t |-> R, s |-> 0, n |-> Reads[ri]]) /\ todo' = Reads[ri]
         /\ ri' = ri + 1 /\ Go(R, "rlock") /\ U(<<fd, lock, kbuf, fin, pclosed, rst, shut, left, got, faults, wi, pw, seen>>)
RCheck == /\ pc[R] = "rcheck" /\ Go(R, IF fd.s THEN "recv" ELSE "rdone") /\ got' = 0
          /\ U(<<m, fd, lock, kbuf, fin, pclosed, rst, shut, left, todo, faults, wi, ri, pw, seen>>)
Recv ==
  /\ pc[R] = "recv"
  /\ U(<<fd, lock, fin, pclosed, rst, shut, left, todo, wi, ri, pw, seen>>)
  /\ \/ ~Use /\ Ev([e |-> "BadFd"]) /\ got' = 0 /\ Go(R, "rdone") /\ U(<<kbuf, faults>>)
     \/ Use /\ faults > 0 /\ faults' = faults - 1 /\ got' = 0 /\ Go(R, IF Variant = "eintr" THEN "rdone" ELSE "recv") /\ U(<<m, kbuf>>)
     \/ Use /\ kbuf[1] > 0 /\ ~shut /\ \E k \in 1..(IF kbuf[1] < todo THEN kbuf[1] ELSE todo) :
          kbuf' = [kbuf EXCEPT ![1] = @ - k] /\ got' = k /\ Go(R, "rdone") /\ U(<<m, faults>>)
     \/ Use /\ (shut \/ (kbuf[1] = 0 /\ (rst \/ fin[1]))) /\ got' = 0 /\ Go(R, "rdone") /\ U(<<m, kbuf, faults>>)
RDone == /\ pc[R] = "rdone" /\ Drop(R) /\ Go(R, "rret") /\ U(<<m, fd, kbuf, fin, pclosed, rst, shut, left, todo, got, faults, wi, ri, pw, seen>>)
RRet == /\ pc[R] = "rret" /\ Ev([e |-> "ret", op |-> "read", t |-> R, s |-> 0, n |-> got, from |-> m.r[0] % 251, seq |-> 1])
        /\ IF got = 0 THEN ri' = Len(Reads) + 1 ELSE ri' = ri
        /\ Go(R, "idle") /\ U(<<fd, lock, kbuf, fin, pclosed, rst, shut, left, todo, got, faults, wi, pw, seen>>)
\* ---- close(): shutdown under the shared lock, close under the exclusive one
Unread == kbuf[1] > 0
CCall(t) == /\ pc[t] = "idle" /\ Ev([e |-> "call", op |-> "close", t |-> t, s |-> 0]) /\ Go(t, "c1")
            /\ U(<<fd, lock, kbuf, fin, pclosed, rst, shut, left, todo, got, faults, wi, ri, pw, seen>>)
CShut(t) == /\ pc[t] = "c2" /\ Go(t, "c3") /\ Drop(t)
            /\ IF fd.s /\ Variant # "noshutdown" THEN /\ Fd("shutdown") /\ shut' = TRUE /\ fin' = [fin EXCEPT ![0] = TRUE]
                                                 ELSE U(<<m, shut, fin>>)
            /\ IF Variant = "earlyclose" /\ fd.s THEN fd' = [fd EXCEPT !.k = "closed"] ELSE U(fd)
            /\ U(<<kbuf, pclosed, rst, left, todo, got, faults, wi, ri, pw, seen>>)
CLock(t) == /\ pc[t] = "c3" /\ lock.w = 0 /\ lock.r = {} /\ lock' = [lock EXCEPT !.w = t] /\ Go(t, "c4")
            /\ U(<<m, fd, kbuf, fin, pclosed, rst, shut, left, todo, got, faults, wi, ri, pw, seen>>)
CClose(t) == /\ pc[t] = "c4" /\ Go(t, "c5")
             /\ IF ~fd.s THEN U(<<m, fd, fin, rst, kbuf>>)
                ELSE IF Variant = "earlyclose" THEN fd' = [fd EXCEPT !.s = FALSE] /\ U(<<m, fin, rst, kbuf>>)
                ELSE /\ fd' = [k |-> "closed", s |-> FALSE] /\ fin' = [fin EXCEPT ![0] = TRUE]
                     /\ IF Use /\ Unread /\ ~rst THEN rst' = TRUE /\ Ev([e |-> "rst", c |-> 1]) ELSE U(rst) /\ Fd("close")
                     /\ kbuf' = [kbuf EXCEPT ![1] = 0]
             /\ U(<<lock, pclosed, shut, left, todo, got, faults, wi, ri, pw, seen>>)
CDone(t) == /\ pc[t] = "c5" /\ Drop(t) /\ Go(t, "c6") /\ U(<<m, fd, kbuf, fin, pclosed, rst, shut, left, todo, got, faults, wi, ri, pw, seen>>)
CRet(t) == /\ pc[t] = "c6" /\ Ev([e |-> "ret", op |-> "close", t |-> t, s |-> 0]) /\ Go(t, "end")
           /\ U(<<fd, lock, kbuf, fin, pclosed, rst, shut, left, todo, got, faults, wi, ri, pw, seen>>)
\* ---- isOpen(): a broken connection is closed (seen: the kernel reports the error once)
OCall(t) == /\ pc[t] = "idle" /\ Ev([e |-> "call", op |-> "isopen", t |-> t, s |-> 0]) /\ Go(t, "o1")
            /\ U(<<fd, lock, kbuf, fin, pclosed, rst, shut, left, todo, got, faults, wi, ri, pw, seen>>)
OLook(t) == /\ pc[t] = "o2" /\ Drop(t)
            /\ IF fd.s THEN Fd("getsockopt") ELSE U(m)
            /\ IF fd.s /\ ~(rst /\ seen = 0) THEN Go(t, "oyes") /\ U(seen) ELSE Go(t, "ono1") /\ seen' = IF fd.s THEN 1 ELSE seen
            /\ U(<<fd, kbuf, fin, pclosed, rst, shut, left, todo, got, faults, wi, ri, pw>>)
OShut(t) == /\ pc[t] = "ono2" /\ Go(t, "ono3") /\ Drop(t)
            /\ IF fd.s THEN Fd("shutdown") /\ shut' = TRUE ELSE U(<<m, shut>>)
            /\ U(<<fd, kbuf, fin, pclosed, rst, left, todo, got, faults, wi, ri, pw, seen>>)
OLock(t) == /\ pc[t] = "ono3" /\ lock.w = 0 /\ lock.r = {} /\ lock' = [lock EXCEPT !.w = t] /\ Go(t, "ono4")
            /\ U(<<m, fd, kbuf, fin, pclosed, rst, shut, left, todo, got, faults, wi, ri, pw, seen>>)
OClose(t) == /\ pc[t] = "ono4" /\ Go(t, "ono") /\ Drop(t)
             /\ IF fd.s THEN Fd("close") /\ fd' = [k |-> IF Variant = "leak" THEN fd.k ELSE "closed", s |-> FALSE] ELSE U(<<m, fd>>)
             /\ U(<<kbuf, fin, pclosed, rst, shut, left, todo, got, faults, wi, ri, pw, seen>>)
ORet(t) == /\ pc[t] \in {"oyes", "ono"} /\ Ev([e |-> "ret", op |-> "isopen", t |-> t, s |-> 0, ok |-> IF pc[t] = "oyes" THEN 1 ELSE 0]) /\ Go(t, "end")
           /\ U(<<fd, lock, kbuf, fin, pclosed, rst, shut, left, todo, got, faults, wi, ri, pw, seen>>)
\* ---- the other end: writes and reads at once, closes, may be reset
PT == 100
PWrite == /\ pw <= Len(PeerWrites) /\ ~pclosed /\ ~rst /\ ~(fd.k = "closed") /\ kbuf[1] + PeerWrites[pw] <= Cap
          /\ m' = Step(Step(m, [e |-> "call", op |-> "write", t |-> PT, s |-> 1, n |-> PeerWrites[pw]]), [e |-> "ret", op |-> "write", t |-> PT, s |-> 1, ok |-> 1])
          /\ kbuf' = [kbuf EXCEPT ![1] = @ + PeerWrites[pw]] /\ pw' = pw + 1
          /\ U(<<pc, fd, lock, fin, pclosed, rst, shut, left, todo, got, faults, wi, ri, seen>>)
PRead == /\ ~pclosed /\ kbuf[0] > 0
         /\ m' = Step(Step(m, [e |-> "call", op |-> "read", t |-> PT, s |-> 1, n |-> kbuf[0]]), [e |-> "ret", op |-> "read", t |-> PT, s |-> 1, n |-> kbuf[0], from |-> m.r[1] % 251, seq |-> 1])
         /\ kbuf' = [kbuf EXCEPT ![0] = 0]
         /\ U(<<pc, fd, lock, fin, pclosed, rst, shut, left, todo, got, faults, wi, ri, pw, seen>>)
\* it has read everything and sees the end: all that was written must have come
PEof == /\ ~pclosed /\ kbuf[0] = 0 /\ (fin[0] \/ rst) /\ ~\E p \in m.pend : p.t = PT
        /\ m' = Step(Step(m, [e |-> "call", op |-> "read", t |-> PT, s |-> 1, n |-> 1]), [e |-> "ret", op |-> "read", t |-> PT, s |-> 1, n |-> 0, from |-> 0, seq |-> 1])
        /\ pclosed' = TRUE /\ fin' = [fin EXCEPT ![1] = TRUE]
        /\ U(<<pc, fd, lock, kbuf, rst, shut, left, todo, got, faults, wi, ri, pw, seen>>)
PClose == /\ ~pclosed /\ pclosed' = TRUE /\ fin' = [fin EXCEPT ![1] = TRUE]
          /\ LET m1 == Step(Step(m, [e |-> "call", op |-> "close", t |-> PT, s |-> 1]), [e |-> "ret", op |-> "close", t |-> PT, s |-> 1])
             IN IF kbuf[0] > 0 /\ ~rst THEN rst' = TRUE /\ m' = Step(m1, [e |-> "rst", c |-> 1]) ELSE U(rst) /\ m' = m1
          /\ kbuf' = [kbuf EXCEPT ![0] = 0]
          /\ U(<<pc, fd, lock, shut, left, todo, got, faults, wi, ri, pw, seen>>)
Reset == /\ MayReset /\ ~rst /\ rst' = TRUE /\ Ev([e |-> "rst", c |-> 1]) /\ kbuf' = [s \in Side |-> 0]
         /\ U(<<pc, fd, lock, fin, pclosed, shut, left, todo, got, faults, wi, ri, pw, seen>>)

Code == \/ WCall \/ RLock(W, "wlock", "wcheck") \/ WCheck \/ Send \/ WDone \/ WRet
        \/ RCall \/ RLock(R, "rlock", "rcheck") \/ RCheck \/ Recv \/ RDone \/ RRet
        \/ \E t \in Closers : CCall(t) \/ RLock(t, "c1", "c2") \/ CShut(t) \/ CLock(t) \/ CClose(t) \/ CDone(t) \/ CRet(t)
        \/ \E t \in Lookers : OCall(t) \/ RLock(t, "o1", "o2") \/ OLook(t) \/ RLock(t, "ono1", "ono2") \/ OShut(t) \/ OLock(t) \/ OClose(t) \/ ORet(t)
Next == Code \/ PWrite \/ PRead \/ PEof \/ PClose \/ Reset
Spec == Init /\ [][Next]_vars
NothingBad == m.bad = {}
\* when neither the code nor the network can go on, nobody waits who should not
NotStuck == ENABLED(Code \/ PRead \/ PEof) \/ Quiet(m).bad = {}
\* the descriptor is closed when the object no longer knows it
NoLeak == ~fd.s => fd.k = "closed"
=============================================================================
