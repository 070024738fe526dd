------------------------------- MODULE Adapters -------------------------------
(* Stream adapters: combined reader-writers, spies and file streams, composed *)
(* at will over base streams and stdio files.  A monitor: the events of the  *)
(* base streams (bread, bwrite, bclose) and files (fget, feof, fput, fflush, *)
(* fclose) are what the adapters do to what they wrap; call/ret are what     *)
(* their user sees.                                                          *)
(*                                                                           *)
(* A node is a base, a file, rw(r, w), spyr(r, log, pre), spyw(w, log, pre). *)
EXTENDS Naturals, Sequences, FiniteSets
Nodes == 1..8
Threads == 0..6
NoNode == [k |-> "none"]
NoPend == [op |-> "none"]

Start == [bad |-> {}, node |-> [i \in Nodes |-> NoNode],
          closed |-> [i \in Nodes |-> FALSE],     \* of bases and files
          eof |-> [i \in Nodes |-> FALSE],
          part |-> [i \in Nodes |-> 0],           \* the thread (+1) half-way through a write to that base
          pend |-> [t \in Threads |-> NoPend],
          real |-> <<>>, got |-> 0]
Bad(m, why) == [m EXCEPT !.bad = @ \cup {why}]
Must(c, m, why) == IF c THEN m ELSE Bad(m, why)

RECURSIVE LeafR(_, _), LeafW(_, _), Leaves(_, _), SpiesR(_, _), SpiesW(_, _), Open(_, _), Task(_, _, _, _)
LeafR(m, i) == CASE m.node[i].k \in {"base", "file"} -> i
                 [] m.node[i].k \in {"rw", "spyr"} -> LeafR(m, m.node[i].r)
LeafW(m, i) == CASE m.node[i].k \in {"base", "file"} -> i
                 [] m.node[i].k \in {"rw", "spyw"} -> LeafW(m, m.node[i].w)
\* everything a close of i closes
Leaves(m, i) == CASE m.node[i].k \in {"base", "file"} -> {i}
                  [] m.node[i].k = "rw" -> Leaves(m, m.node[i].r) \cup Leaves(m, m.node[i].w)
                  [] m.node[i].k = "spyr" -> Leaves(m, m.node[i].r)
                  [] m.node[i].k = "spyw" -> Leaves(m, m.node[i].w)
\* the spies a transfer passes, the innermost first
SpiesR(m, i) == CASE m.node[i].k \in {"base", "file"} -> <<>>
                  [] m.node[i].k = "rw" -> SpiesR(m, m.node[i].r)
                  [] m.node[i].k = "spyr" -> Append(SpiesR(m, m.node[i].r), i)
SpiesW(m, i) == CASE m.node[i].k \in {"base", "file"} -> <<>>
                  [] m.node[i].k = "rw" -> SpiesW(m, m.node[i].w)
                  [] m.node[i].k = "spyw" -> Append(SpiesW(m, m.node[i].w), i)
Open(m, i) == \A b \in Leaves(m, i) : (m.node[b].k = "file" /\ m.node[b].closable = 0) \/ ~m.closed[b]

\* What a write of d to i has to do: write d to its base, and when that
\* succeeds what its spies have to.
Task(m, i, d, main) ==
  [b |-> LeafW(m, i), d |-> d, at |-> 0, main |-> main, opt |-> FALSE,
   subs |-> [j \in 1..Len(SpiesW(m, i)) |->
               LET s == m.node[SpiesW(m, i)[j]] IN [Task(m, s.log, s.pre \o d, FALSE) EXCEPT !.opt = (d = <<>>)]]]
Copies(m, i, d) == LET sp == SpiesR(m, i) IN [j \in 1..Len(sp) |-> Task(m, m.node[sp[j]].log, m.node[sp[j]].pre \o d, FALSE)]

Remove(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
IsPrefixAt(t, d) == Len(d) <= Len(t.d) - t.at /\ SubSeq(t.d, t.at + 1, t.at + Len(d)) = d

Closing(m, t, b) == m.pend[t].op = "close" /\ b \in Leaves(m, m.pend[t].h)
\* a file whose close is under way counts as closed for transfers
CloseUnderWay(m, b) == m.closed[b] \/ \E t \in Threads : Closing(m, t, b) /\ m.node[b].k = "file" /\ m.node[b].closable = 1

Call(m, e) ==
  LET p == CASE e.op = "read" -> [op |-> "read", h |-> e.h, n |-> e.n, asked |-> FALSE, d |-> <<>>, eof |-> FALSE, tasks |-> <<>>, b |-> LeafR(m, e.h), copied |-> FALSE]
             [] e.op = "write" -> [op |-> "write", h |-> e.h, res |-> "none", tasks |-> <<Task(m, e.h, e.d, TRUE)>>, b |-> LeafW(m, e.h), empty |-> e.d = <<>>, flushed |-> TRUE]
             [] e.op = "open" -> [op |-> "open", h |-> e.h, vals |-> {Open(m, e.h)} \cup {FALSE : b \in {b \in Leaves(m, e.h) : CloseUnderWay(m, b)}}]
             [] OTHER -> [op |-> e.op, h |-> e.h]
  IN [m EXCEPT !.pend = [t \in Threads |->
        IF t = e.t THEN p
        ELSE IF e.op = "close" /\ @[t].op = "open" /\ Leaves(m, e.h) \cap Leaves(m, @[t].h) # {} THEN [@[t] EXCEPT !.vals = @ \cup {FALSE}]
        ELSE @[t]]]

\* a base or file was closed: what concurrent isOpen()s may answer
NoteClosed(m, b) ==
  LET m1 == [m EXCEPT !.closed[b] = TRUE]
  IN [m1 EXCEPT !.pend = [t \in Threads |-> IF @[t].op = "open" THEN [@[t] EXCEPT !.vals = @ \cup {Open(m1, m.pend[t].h)}] ELSE @[t]]]

BRead(m, e) ==
  LET p == m.pend[e.t] IN
  IF p.op # "read" THEN Bad(m, "read not asked for")
  ELSE IF p.n = 0 /\ e.d = <<>> THEN m
  ELSE Must(p.b = e.b /\ e.n = p.n /\ ~p.asked,
            [m EXCEPT !.pend[e.t] = [p EXCEPT !.asked = TRUE, !.d = e.d, !.tasks = IF e.d = <<>> THEN <<>> ELSE Copies(m, p.h, e.d)]], "not the read asked for")

\* bytes written to b by thread t
Wrote(m, t, b, d, ok) ==
  LET p == m.pend[t] IN
  IF p.op \notin {"read", "write"} THEN Bad(m, "write not asked for")
  ELSE IF d = <<>> /\ ok /\ ~(\E i \in 1..Len(p.tasks) : p.tasks[i].b = b /\ p.tasks[i].d = <<>>)
  THEN m
  ELSE LET c == {i \in 1..Len(p.tasks) : p.tasks[i].b = b /\ IsPrefixAt(p.tasks[i], d)}
       IN IF c = {} THEN Bad(m, "not the bytes to be written")
          ELSE LET i == CHOOSE i \in c : \A j \in c : i <= j
                   tk == [p.tasks[i] EXCEPT !.at = @ + Len(d)]
                   whole == tk.at = Len(tk.d)
                   rest == Remove(p.tasks, i)
                   m1 == Must(m.part[b] \in {0, t + 1}, m, "writes interleaved")
                   m2 == [m1 EXCEPT !.part[b] = IF ok /\ ~whole THEN t + 1 ELSE 0]
                   p1 == IF ~ok THEN [p EXCEPT !.tasks = rest]
                         ELSE IF whole THEN [p EXCEPT !.tasks = SubSeq(@, 1, i - 1) \o tk.subs \o SubSeq(@, i + 1, Len(@))]
                         ELSE [p EXCEPT !.tasks = [@ EXCEPT ![i] = tk]]
                   p2 == IF tk.main /\ (~ok \/ whole) THEN [p1 EXCEPT !.res = IF ok THEN "ok" ELSE "failed"] ELSE p1
               IN [m2 EXCEPT !.pend[t] = p2]
BWrite(m, e) == Wrote(m, e.t, e.b, e.d, e.ok = 1)

\* ---- files: several stdio calls make one transfer
FGet(m, e) ==
  LET p == m.pend[e.t] IN
  Must(p.op = "read" /\ p.b = e.b /\ Len(p.d) < p.n,
       [m EXCEPT !.pend[e.t] = IF p.op = "read" THEN [p EXCEPT !.d = Append(@, e.c), !.asked = TRUE] ELSE @], "file read not asked for")
FEof(m, e) ==
  LET p == m.pend[e.t] IN
  IF p.op = "read" THEN [m EXCEPT !.pend[e.t] = [p EXCEPT !.eof = TRUE, !.asked = TRUE], !.eof[e.b] = TRUE] ELSE m
\* the copies of what was read from a file are due when the reading is over,
\* which is at the first write that follows, or at the return
Settle(m, t) ==
  LET p == m.pend[t] IN
  IF p.op = "read" /\ m.node[p.b].k = "file" /\ ~p.copied /\ p.d # <<>>
  THEN [m EXCEPT !.pend[t] = [p EXCEPT !.copied = TRUE, !.tasks = Copies(m, p.h, p.d)]] ELSE m
\* a file write is done when flushed
FPut(m, e) ==
  LET m1 == Wrote(m, e.t, e.b, e.d, e.ok = 1)
      p == m1.pend[e.t]
  IN IF p.op = "write" /\ p.b = e.b /\ m.pend[e.t].res = "none" THEN [m1 EXCEPT !.pend[e.t].flushed = FALSE] ELSE m1
FFlush(m, e) ==
  LET p == m.pend[e.t] IN
  IF p.op = "write" /\ p.b = e.b /\ ~p.flushed
  THEN [m EXCEPT !.pend[e.t] = [p EXCEPT !.flushed = e.ok = 1,
                                         !.res = IF e.ok = 1 THEN @ ELSE "failed"]]
  \* the write to a log failed: it is not copied any further
  ELSE IF p.op \in {"read", "write"} /\ e.ok = 0 THEN [m EXCEPT !.pend[e.t].tasks = [i \in 1..Len(p.tasks) |-> [p.tasks[i] EXCEPT !.opt = TRUE]]] ELSE m

BClose(m, e) == Must(Closing(m, e.t, e.b), NoteClosed(m, e.b), "closed unasked")
FClose(m, e) == Must((Closing(m, e.t, e.b) \/ (m.pend[e.t].op = "drop" /\ m.pend[e.t].h = e.b)) /\ m.node[e.b].closable = 1 /\ ~m.closed[e.b],
                     NoteClosed(m, e.b), "file closed unasked")

\* copies to a log that is a file being closed may be lost
DueM(m, p) == \E i \in 1..Len(p.tasks) : ~p.tasks[i].main /\ ~p.tasks[i].opt /\ p.tasks[i].d # <<>> /\ ~CloseUnderWay(m, p.tasks[i].b)
Ret(m0, e) ==
  LET m == Settle(m0, e.t)
      p == m.pend[e.t]
      m1 == [m EXCEPT !.pend[e.t] = NoPend]
      file == m.node[p.b].k = "file"
  IN CASE e.op = "read" ->
            LET m2 == Must(e.over = 0 /\ e.k <= p.n, m1, "buffer overrun")
                m3 == Must(e.d = p.d, m2, "not the bytes read")
                m4 == Must(p.n = 0 \/ p.asked \/ CloseUnderWay(m, p.b), m3, "nothing was read")
                m5 == Must(file => (e.d # <<>> \/ p.n = 0 \/ p.eof \/ CloseUnderWay(m, p.b)), m4, "file read ended early")
            IN Must(~DueM(m, p), m5, "not copied to the log")
       [] e.op = "write" ->
            LET m2 == IF e.ok = 1 THEN Must(p.res = "ok" \/ (p.empty /\ p.res # "failed"), m1, "write succeeded without")
                      ELSE Must(p.res = "failed" \/ CloseUnderWay(m, p.b), m1, "write failed without")
                m3 == Must(e.ok = 0 \/ ~file \/ p.flushed, m2, "file not flushed")
            IN Must(e.ok = 0 \/ ~DueM(m, p), m3, "not copied to the log")
       [] e.op = "open" -> Must((e.ok = 1) \in p.vals, m1, "open or not")
       [] e.op = "close" -> Must(\A b \in Leaves(m, p.h) : m.closed[b] \/ (m.node[b].k = "file" /\ (m.node[b].closable = 0 \/ \E t \in Threads \ {e.t} : Closing(m, t, b))), m1, "not closed")
       [] e.op = "drop" -> Must(m.node[p.h].k = "file" /\ m.node[p.h].closable = 1 => m.closed[p.h], m1, "file not closed on destruction")

Step(m, e) ==
  CASE e.e = "node" -> [m EXCEPT !.node[e.id] = e]
    [] e.e = "call" -> Call(m, e)
    [] e.e = "ret" -> IF e.op \in {"open", "close", "drop"} THEN Ret([m EXCEPT !.pend[e.t] = [op |-> m.pend[e.t].op, h |-> m.pend[e.t].h, b |-> m.pend[e.t].h, vals |-> IF e.op = "open" THEN m.pend[e.t].vals ELSE {}]], e) ELSE Ret(m, e)
    [] e.e = "bread" -> BRead(m, e)
    [] e.e = "bwrite" -> BWrite(Settle(m, e.t), e)
    [] e.e = "bclose" -> BClose(m, e)
    [] e.e = "fget" -> FGet(m, e)
    [] e.e = "feof" -> FEof(m, e)
    [] e.e = "fput" -> FPut(Settle(m, e.t), e)
    [] e.e = "fflush" -> FFlush(m, e)
    [] e.e = "fclose" -> FClose(m, e)
    \* real files
    [] e.e = "opened" -> Must(e.ok = e.want, m, "opened or not")
    [] e.e = "rwrite" -> Must(e.ok = 1 - e.full, [m EXCEPT !.real = @ \o e.d], "write to a real file")
    [] e.e = "content" -> Must(e.d = m.real, m, "content of a real file")
    [] e.e = "rread" -> Must(e.d = SubSeq(m.real, m.got + 1, Len(m.real)), [m EXCEPT !.got = Len(m.real)], "read from a real pipe")
    [] e.e = "rend" -> Must(e.k = 0, m, "end of a real pipe")
    [] e.e = "afterclose" -> Must(e.ok = 0 /\ e.open = 0, m, "real file after close")
    [] OTHER -> m
Known == {"node", "call", "ret", "bread", "bwrite", "bclose", "fget", "feof", "fput", "fflush", "fclose", "opened", "rwrite", "content", "rread", "rend",
          "afterclose", "quiet", "end", "realfile"}
=============================================================================
