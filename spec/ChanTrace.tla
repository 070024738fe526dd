------------------------------ MODULE ChanTrace -----------------------------
EXTENDS Chan, TraceBatch
TInit == BatchInit /\ ChanInit
TCall == Is("call") /\ Call(E.t, E.op, E.v) /\ Consume
TRet  == Is("ret") /\ pend[E.t].op = E.op /\ Ret(E.t, E.v) /\ Consume
TQuiesce == Is("quiesce") /\ Quiescent /\ Consume /\ UNCHANGED chanVars
\* a pending effect can always be postponed to the next return or quiescence
TLin == HasE /\ E.e \in {"ret", "quiesce"} /\ \E t \in Threads : Lin(t) /\ Silent
TNext == TCall \/ TRet \/ TQuiesce \/ TLin
TSpec == TInit /\ [][TNext]_<<chanVars, tid, l>>
=============================================================================
