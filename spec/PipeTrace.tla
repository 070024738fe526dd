------------------------------ MODULE PipeTrace -----------------------------
EXTENDS Pipe, TraceBatch, FiniteSets
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

\* What the pending read of t will turn out to return in this execution (the
\* bytes are all different), or no constraint if it never returns.
RetAt(t) == {i \in l..Len(Evs) : Evs[i].e = "ret" /\ Evs[i].t = t}
MatchLen(t) ==   \* the most bytes the pending read of t may grab now
  LET room == pend[t].n - Len(pend[t].d)
      most == IF room < Len(data) THEN room ELSE Len(data)
  IN IF RetAt(t) = {} THEN most
     ELSE LET want == Evs[Min(RetAt(t))].d
              have == Len(pend[t].d)
              ok == {k \in 1..most : have + k <= Len(want)
                        /\ SubSeq(data, 1, k) = SubSeq(want, have + 1, have + k)}
          IN IF ok = {} THEN 0 ELSE CHOOSE k \in ok : \A j \in ok : j <= k

TInit == BatchInit /\ PipeInit
TCall == Is("call") /\ Call(E.t, E.op, E.n, E.d) /\ Consume
TRet == Is("ret") /\ pend[E.t].op = E.op /\ Ret(E.t, E.n, E.d) /\ Consume
TQuiesce == Is("quiesce") /\ Quiescent /\ Consume /\ UNCHANGED pipeVars
TLin == HasE /\ E.e \in {"ret", "quiesce"} /\ Silent /\ \E t \in Threads :
          \/ LinWrite(t) \/ LinClose(t) \/ LinIsOpen(t)
          \/ CanGrab(t) /\ MatchLen(t) > 0 /\ Grab(t, MatchLen(t))
          \/ E.e = "ret" /\ E.t = t /\ LinRead(t)
TNext == TCall \/ TRet \/ TQuiesce \/ TLin
TSpec == TInit /\ [][TNext]_<<pipeVars, tid, l>>
=============================================================================
