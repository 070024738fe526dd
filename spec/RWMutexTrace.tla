---------------------------- MODULE RWMutexTrace ----------------------------
EXTENDS RWMutex, TraceBatch
TInit == BatchInit /\ RWInit
TCall == Is("call") /\ Call(E.t, E.op, E.a, E.b) /\ Consume
TRet == Is("ret") /\ pend[E.t].op = E.op /\ Ret(E.t) /\ Consume
TQuiesce == Is("quiesce") /\ Quiescent /\ Consume /\ UNCHANGED rwVars
TLin == HasE /\ E.e \in {"ret", "quiesce"} /\ Silent /\ \E t \in Threads : Lin(t)
TNext == TCall \/ TRet \/ TQuiesce \/ TLin
TSpec == TInit /\ [][TNext]_<<rwVars, tid, l>>
=============================================================================
