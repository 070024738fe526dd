----------------------------- MODULE AdaptersImpl -----------------------------
(* The algorithm of File, ReaderSpy and WriterSpy in src/io.cpp: threads     *)
(* reading, writing and closing one file through two spies that share a log. *)
(* Every observable step goes through the monitor Adapters.  Variant "code"  *)
(* is the code's algorithm; the others are wrong.                            *)
EXTENDS Adapters
CONSTANTS Readers, Writers, Closers, N, Avail, Faults, Variant
F == 1       \* the file
L == 2       \* the log
SR == 3      \* the reader spy
SW == 4      \* the writer spy
Pre == <<9>>
Data == <<5, 6>>
VARIABLES m, pc, closedFlag, rmx, wmx, avail, next, got, faults, fclosed, rounds
vars == <<m, pc, closedFlag, rmx, wmx, avail, next, got, faults, fclosed, rounds>>
Thr == Readers \cup Writers \cup Closers
Nd(i) == CASE i = F -> [k |-> "file", closable |-> 1] [] i = L -> [k |-> "base"]
           [] i = SR -> [k |-> "spyr", r |-> F, log |-> L, pre |-> Pre] [] i = SW -> [k |-> "spyw", w |-> F, log |-> L, pre |-> Pre]
           [] OTHER -> NoNode
Init == /\ m = [Start EXCEPT !.node = [i \in Nodes |-> Nd(i)]] /\ pc = [t \in Thr |-> "idle"] /\ closedFlag = FALSE /\ rmx = 0 /\ wmx = 0
        /\ avail = Avail /\ next = 0 /\ got = [t \in Thr |-> <<>>] /\ faults = Faults /\ fclosed = FALSE /\ rounds = [t \in Thr |-> IF t \in Closers THEN 1 ELSE N]
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Ev(e) == m' = Step(m, e)
\* a stdio call on the file
Stdio(e) == IF fclosed THEN m' = Bad(m, "used after close") ELSE Ev(e)

\* ---- read of 2 bytes through the spy
RCall(t) == /\ pc[t] = "idle" /\ rounds[t] > 0 /\ rounds' = [rounds EXCEPT ![t] = @ - 1] /\ Ev([e |-> "call", op |-> "read", t |-> t, h |-> SR, n |-> 2])
            /\ got' = [got EXCEPT ![t] = <<>>] /\ Go(t, "rlock") /\ UNCHANGED <<closedFlag, rmx, wmx, avail, next, faults, fclosed>>
RLock(t) == /\ pc[t] = "rlock" /\ rmx = 0 /\ rmx' = t /\ Go(t, "rcheck") /\ UNCHANGED <<m, closedFlag, wmx, avail, next, got, faults, fclosed, rounds>>
RCheck(t) == /\ pc[t] = "rcheck" /\ Go(t, IF (closedFlag /\ Variant # "noguard") \/ Len(got[t]) = 2 THEN "rspy" ELSE "rget")
             /\ rmx' = IF (closedFlag /\ Variant # "noguard") \/ Len(got[t]) = 2 THEN 0 ELSE rmx
             /\ UNCHANGED <<m, closedFlag, wmx, avail, next, got, faults, fclosed, rounds>>
RGet(t) == /\ pc[t] = "rget"
           /\ \/ /\ avail > 0 /\ ~fclosed /\ Stdio([e |-> "fget", t |-> t, b |-> F, c |-> next]) /\ avail' = avail - 1 /\ next' = next + 1
                 /\ got' = [got EXCEPT ![t] = Append(@, next)] /\ Go(t, "rcheck") /\ UNCHANGED rmx
              \/ /\ (avail = 0 \/ fclosed) /\ Stdio([e |-> "feof", t |-> t, b |-> F]) /\ Go(t, "rspy") /\ rmx' = 0 /\ UNCHANGED <<avail, next, got>>
           /\ UNCHANGED <<closedFlag, wmx, faults, fclosed, rounds>>
RSpy(t) == /\ pc[t] = "rspy" /\ got[t] # <<>> /\ Variant # "split"
           /\ Ev([e |-> "bwrite", t |-> t, b |-> L, d |-> Pre \o got[t], ok |-> 1]) /\ Go(t, "rret")
           /\ UNCHANGED <<closedFlag, rmx, wmx, avail, next, got, faults, fclosed, rounds>>
RSplit(t) == /\ Variant = "split" /\ got[t] # <<>> /\ pc[t] \in {"rspy", "rspy2"}
             /\ Ev([e |-> "bwrite", t |-> t, b |-> L, d |-> IF pc[t] = "rspy" THEN Pre ELSE got[t], ok |-> 1]) /\ Go(t, IF pc[t] = "rspy" THEN "rspy2" ELSE "rret")
             /\ UNCHANGED <<closedFlag, rmx, wmx, avail, next, got, faults, fclosed, rounds>>
RRet(t) == /\ (pc[t] = "rret" \/ (pc[t] = "rspy" /\ got[t] = <<>>)) /\ Go(t, "idle")
           /\ Ev([e |-> "ret", op |-> "read", t |-> t, h |-> SR, d |-> got[t], k |-> Len(got[t]), over |-> 0])
           /\ UNCHANGED <<closedFlag, rmx, wmx, avail, next, got, faults, fclosed, rounds>>
\* ---- write through the spy
WCall(t) == /\ pc[t] = "idle" /\ rounds[t] > 0 /\ rounds' = [rounds EXCEPT ![t] = @ - 1] /\ Ev([e |-> "call", op |-> "write", t |-> t, h |-> SW, d |-> Data])
            /\ Go(t, IF Variant = "logfirst" THEN "wlog" ELSE "wlock") /\ UNCHANGED <<closedFlag, rmx, wmx, avail, next, got, faults, fclosed>>
WLogFirst(t) == /\ Variant = "logfirst" /\ pc[t] = "wlog" /\ Ev([e |-> "bwrite", t |-> t, b |-> L, d |-> Pre \o Data, ok |-> 1]) /\ Go(t, "wlock")
                /\ UNCHANGED <<closedFlag, rmx, wmx, avail, next, got, faults, fclosed, rounds>>
WLock(t) == /\ pc[t] = "wlock" /\ wmx = 0 /\ wmx' = t /\ Go(t, IF closedFlag /\ Variant # "noguard" THEN "wfail" ELSE "wput")
            /\ UNCHANGED <<m, closedFlag, rmx, avail, next, got, faults, fclosed, rounds>>
WPut(t) == /\ pc[t] = "wput"
           /\ \/ /\ Stdio([e |-> "fput", t |-> t, b |-> F, d |-> Data, ok |-> 1]) /\ Go(t, IF Variant = "noflush" THEN "wok" ELSE "wflush") /\ UNCHANGED faults
              \/ /\ faults > 0 /\ faults' = faults - 1 /\ Stdio([e |-> "fput", t |-> t, b |-> F, d |-> <<5>>, ok |-> 0]) /\ Go(t, "wfail")
           /\ UNCHANGED <<closedFlag, rmx, wmx, avail, next, got, fclosed, rounds>>
WFlush(t) == /\ pc[t] = "wflush"
             /\ \/ /\ Stdio([e |-> "fflush", t |-> t, b |-> F, ok |-> 1]) /\ Go(t, "wok") /\ UNCHANGED faults
                \/ /\ faults > 0 /\ faults' = faults - 1 /\ Stdio([e |-> "fflush", t |-> t, b |-> F, ok |-> 0]) /\ Go(t, "wfail")
             /\ UNCHANGED <<closedFlag, rmx, wmx, avail, next, got, fclosed, rounds>>
WUnlock(t) == /\ pc[t] \in {"wok", "wfail"} /\ wmx' = 0 /\ Go(t, IF pc[t] = "wfail" THEN "wretf" ELSE IF Variant = "logfirst" THEN "wret" ELSE "wspy")
              /\ UNCHANGED <<m, closedFlag, rmx, avail, next, got, faults, fclosed, rounds>>
WSpy(t) == /\ pc[t] = "wspy" /\ Ev([e |-> "bwrite", t |-> t, b |-> L, d |-> Pre \o Data, ok |-> 1]) /\ Go(t, "wret")
           /\ UNCHANGED <<closedFlag, rmx, wmx, avail, next, got, faults, fclosed, rounds>>
WRet(t) == /\ pc[t] \in {"wret", "wretf"} /\ Ev([e |-> "ret", op |-> "write", t |-> t, h |-> SW, ok |-> IF pc[t] = "wret" THEN 1 ELSE 0]) /\ Go(t, "idle")
           /\ UNCHANGED <<closedFlag, rmx, wmx, avail, next, got, faults, fclosed, rounds>>
\* ---- close
CCall(t) == /\ pc[t] = "idle" /\ rounds[t] > 0 /\ rounds' = [rounds EXCEPT ![t] = @ - 1] /\ Ev([e |-> "call", op |-> "close", t |-> t, h |-> SR])
            /\ Go(t, "cflag") /\ UNCHANGED <<closedFlag, rmx, wmx, avail, next, got, faults, fclosed>>
CFlag(t) == /\ pc[t] = "cflag" /\ closedFlag' = TRUE /\ Go(t, IF closedFlag /\ Variant # "twice" THEN "cret" ELSE IF Variant = "noguard" THEN "cclose" ELSE "crlock")
            /\ UNCHANGED <<m, rmx, wmx, avail, next, got, faults, fclosed, rounds>>
CRLock(t) == /\ pc[t] = "crlock" /\ rmx = 0 /\ rmx' = t /\ Go(t, "cwlock") /\ UNCHANGED <<m, closedFlag, wmx, avail, next, got, faults, fclosed, rounds>>
CWLock(t) == /\ pc[t] = "cwlock" /\ wmx = 0 /\ wmx' = t /\ Go(t, "cclose") /\ UNCHANGED <<m, closedFlag, rmx, avail, next, got, faults, fclosed, rounds>>
CClose(t) == /\ pc[t] = "cclose" /\ Stdio([e |-> "fclose", t |-> t, b |-> F]) /\ fclosed' = TRUE /\ Go(t, "cret")
             /\ rmx' = (IF rmx = t THEN 0 ELSE rmx) /\ wmx' = (IF wmx = t THEN 0 ELSE wmx) /\ UNCHANGED <<closedFlag, avail, next, got, faults, rounds>>
CRet(t) == /\ pc[t] = "cret" /\ Ev([e |-> "ret", op |-> "close", t |-> t, h |-> SR]) /\ Go(t, "idle")
           /\ UNCHANGED <<closedFlag, rmx, wmx, avail, next, got, faults, fclosed, rounds>>
Next == \/ \E t \in Readers : RCall(t) \/ RLock(t) \/ RCheck(t) \/ RGet(t) \/ RSpy(t) \/ RSplit(t) \/ RRet(t)
        \/ \E t \in Writers : WCall(t) \/ WLogFirst(t) \/ WLock(t) \/ WPut(t) \/ WFlush(t) \/ WUnlock(t) \/ WSpy(t) \/ WRet(t)
        \/ \E t \in Closers : CCall(t) \/ CFlag(t) \/ CRLock(t) \/ CWLock(t) \/ CClose(t) \/ CRet(t)
Spec == Init /\ [][Next]_vars
NothingBad == m.bad = {}
\* no deadlock: when nothing can go on, everything is done
Done == \A t \in Thr : pc[t] = "idle" /\ rounds[t] = 0
NotStuck == ENABLED Next \/ Done
=============================================================================
