-------------------------------- MODULE NetConn --------------------------------
(* One TCP connection: what reads, writes, closes and isOpen on its two ends *)
(* (sides 0 and 1) may report.  A monitor: Step(m, e) is the state after the *)
(* event e; m.bad is set when the event is not allowed.  The events of the   *)
(* environment (rst: the network broke the connection) are part of the       *)
(* history.                                                                  *)
EXTENDS Naturals, Sequences, FiniteSets

Side == {0, 1}
Start == [bad |-> {},
          cl |-> [s \in Side |-> "no"],      \* close: not called, begun, returned
          w |-> [s \in Side |-> 0],          \* bytes in writes that succeeded
          wmax |-> [s \in Side |-> 0],       \* bytes that may have been sent
          dead |-> [s \in Side |-> FALSE],   \* a write has failed
          r |-> [s \in Side |-> 0],          \* bytes side s has received
          rst |-> FALSE,
          pend |-> {}]                       \* calls in progress

Bad(m, why) == [m EXCEPT !.bad = @ \cup {why}]
Must(c, m, why) == IF c THEN m ELSE Bad(m, why)
Pend(m, e) == CHOOSE p \in m.pend : p.t = e.t
Other(s) == 1 - s
Gone(m, s) == m.cl[s] # "no" \/ m.cl[Other(s)] # "no" \/ m.rst

Call(m, e) ==
  LET p == [t |-> e.t, op |-> e.op, s |-> e.s, n |-> IF "n" \in DOMAIN e THEN e.n ELSE 0, after |-> m.cl[e.s] = "done"]
      m1 == [m EXCEPT !.pend = @ \cup {p}]
  IN CASE e.op = "write" -> [m1 EXCEPT !.wmax[e.s] = @ + e.n]
       [] e.op = "close" -> [m1 EXCEPT !.cl[e.s] = IF @ = "no" THEN "begun" ELSE @]
       [] OTHER -> m1

\* the bytes a read returns are the next ones the other side wrote
ReadOk(m, p, e) ==
  IF e.n = 0 THEN p.n = 0 \/ m.cl[p.s] # "no" \/ m.rst \/ (m.cl[Other(p.s)] # "no" /\ m.r[p.s] >= m.w[Other(p.s)])
  ELSE /\ e.seq = 1 /\ e.n <= p.n /\ ~p.after
       /\ e.from = m.r[p.s] % 251
       /\ m.r[p.s] + e.n <= m.wmax[Other(p.s)]
Ret(m, e) ==
  LET p == Pend(m, e)
      m1 == [m EXCEPT !.pend = @ \ {p}]
  IN CASE e.op = "read" -> Must(ReadOk(m, p, e), [m1 EXCEPT !.r[p.s] = @ + e.n], "read")
       [] e.op = "write" -> IF e.ok = 1 THEN Must(p.n = 0 \/ (~p.after /\ ~m.dead[p.s]), [m1 EXCEPT !.w[p.s] = @ + p.n], "write succeeded")
                            ELSE Must(Gone(m, p.s), [m1 EXCEPT !.dead[p.s] = p.n > 0], "write failed")
       [] e.op = "close" -> [m1 EXCEPT !.cl[p.s] = "done"]
       [] e.op = "isopen" -> Must(IF e.ok = 1 THEN ~p.after ELSE Gone(m, p.s), m1, "isOpen")

\* nothing can go on: who may be waiting
Waits(m, p) ==
  CASE p.op = "read" -> /\ ~Gone(m, p.s) /\ m.r[p.s] = m.w[Other(p.s)]
                        /\ ~\E q \in m.pend : q.op = "write" /\ q.s = Other(p.s)
    [] p.op = "write" -> ~Gone(m, p.s) /\ ~\E q \in m.pend : q.op = "read" /\ q.s = Other(p.s)
    [] OTHER -> FALSE
Quiet(m) == Must(\A p \in m.pend : Waits(m, p), m, "stuck")

Step(m, e) ==
  CASE e.e = "call" -> Call(m, e)
    [] e.e = "ret" -> Ret(m, e)
    [] e.e = "rst" -> [m EXCEPT !.rst = TRUE]
    [] e.e = "quiet" -> Quiet(m)
    [] e.e = "end" -> Must(e.fds = 0, m, "descriptor leaked")
    [] e.e = "conn2" -> [Start EXCEPT !.bad = m.bad]      \* another connection
    [] e.e = "noconn" -> Bad(m, "no connection")
    [] e.e = "Sigpipe" -> Bad(m, "process terminated by SIGPIPE")
    [] e.e = "BadFd" -> Bad(m, "closed descriptor used")
    [] OTHER -> m        \* conn, est, accept, listen, unlisten: setting up
Known == {"call", "ret", "rst", "quiet", "end", "noconn", "Sigpipe", "BadFd", "conn", "conn2", "est", "accept", "listen", "unlisten"}
=============================================================================
