---------------------------- MODULE PromiseTrace ----------------------------
EXTENDS Promise, TraceBatch
TInit == BatchInit /\ PInit
TCall == Is("call") /\ Call(E.t, E.op, E.v) /\ Consume
\* early = 1: a timed wait gave up before its time
TRet == Is("ret") /\ E.early = 0 /\ pend[E.t].op = E.op /\ Ret(E.t, E.v) /\ Consume
TQuiesce == Is("quiesce") /\ Quiescent /\ Consume /\ UNCHANGED proVars
TLin == HasE /\ E.e \in {"ret", "quiesce"} /\ Silent /\ \E t \in Threads : Lin(t)
TNext == TCall \/ TRet \/ TQuiesce \/ TLin
TSpec == TInit /\ [][TNext]_<<proVars, tid, l>>
=============================================================================
