------------------------------- MODULE NetServer -------------------------------
(* TCP servers and the clients connecting to them.  A monitor like NetConn.  *)
(* The events est, accept, refused, rst, listen, unlisten, fault are the     *)
(* network's; call/ret of start, stop, connect, and cb/cbret/err (the        *)
(* callbacks) are the library's.                                             *)
EXTENDS Naturals, Sequences, FiniteSets
Servers == 1..2
Ports == 5000..5001
Conns == 0..12

Start == [bad |-> {},
          lis |-> [p \in Ports |-> "no"],            \* no, raw (not ours), or the library's
          own |-> [p \in Ports |-> 0],               \* whose listener it is (0: cannot tell)
          q |-> [p \in Ports |-> <<>>],              \* connections waiting to be accepted
          acc |-> <<>>,                              \* accepted, not yet passed on: [c, v]
          idle |-> [v \in Servers |-> TRUE],         \* certainly stopped
          cb |-> [v \in Servers |-> 0],              \* connection in the callback (+1; 0: none)
          hard |-> [v \in Servers |-> FALSE],        \* accept has failed for good
          told |-> [v \in Servers |-> FALSE],        \* ... and was reported
          est |-> {}, refused |-> {}, rst |-> {}, done |-> {},
          as |-> <<>>, pend |-> {}]
Bad(m, p, why) == [m EXCEPT !.bad = @ \cup {<<p, why>>}]
Must(c, m, p, why) == IF c THEN m ELSE Bad(m, p, why)
Pend(m, e) == CHOOSE p \in m.pend : p.t = e.t

MarkPend(m, Sel(_), f, v) == [m EXCEPT !.pend = {IF Sel(p) THEN [p EXCEPT ![f] = v] ELSE p : p \in @}]

Call(m, e) ==
  CASE e.op = "start" ->
         LET m1 == MarkPend(m, LAMBDA p : p.op # "connect" /\ p.v = e.v, "ov", TRUE)
         IN [m1 EXCEPT !.idle[e.v] = FALSE,
               !.pend = @ \cup {[t |-> e.t, op |-> "start", v |-> e.v, port |-> e.port, tid |-> 0, errs |-> 0, fault |-> FALSE, listened |-> FALSE,
                                 ov |-> \E p \in m.pend : p.op # "connect" /\ p.v = e.v,
                                 conflict |-> m.lis[e.port] # "no" /\ m.own[e.port] # e.v]}]
    [] e.op = "stop" ->
         LET m1 == MarkPend(m, LAMBDA p : p.op = "start" /\ p.v = e.v, "ov", TRUE)
         IN [m1 EXCEPT !.pend = @ \cup {[t |-> e.t, op |-> "stop", v |-> e.v, tid |-> 0, fault |-> FALSE, ov |-> \E p \in m.pend : p.op = "start" /\ p.v = e.v]}]
    [] e.op = "connect" -> [m EXCEPT !.pend = @ \cup {[t |-> e.t, op |-> "connect", c |-> e.c, port |-> e.port, ms |-> e.ms, tid |-> 0, fault |-> FALSE]}]

Owned(m, v) == {p \in Ports : m.lis[p] = "lib" /\ m.own[p] = v}
Ret(m, e) ==
  LET p == Pend(m, e)
      m1 == [m EXCEPT !.pend = @ \ {p}]
  IN CASE e.op = "start" ->
            IF e.ok = 1 THEN Must(p.listened /\ p.errs = 0, m1, "C20", "started without listening")
            ELSE Must(p.errs = 1 /\ (p.conflict \/ p.fault), IF p.ov THEN m1 ELSE [m1 EXCEPT !.idle[p.v] = TRUE], "C20", "start failed")
       [] e.op = "stop" ->
            IF p.ov THEN m1
            ELSE Must(m.cb[p.v] = 0 /\ Owned(m, p.v) = {}, [m1 EXCEPT !.idle[p.v] = TRUE, !.acc = SelectSeq(@, LAMBDA a : a.v # p.v)], "C20", "stopped but running")
       [] e.op = "connect" ->
            LET late == p.ms > 0 /\ e.ms >= p.ms
                m2 == Must(p.ms = 0 \/ e.w <= p.ms, m1, "C19", "connect took too long")
            IN IF e.ok = 1 THEN Must(p.c \in m.est, m2, "C19", "not connected")
               ELSE Must(p.c \in m.refused \/ p.c \in m.rst \/ p.fault \/ late, m2, "C19", "connect failed")

\* who listens: the server with a start in progress on that port
Listen(m, port) ==
  LET who == {p.v : p \in {p \in m.pend : p.op = "start" /\ p.port = port}}
      v == IF Cardinality(who) = 1 THEN CHOOSE x \in who : TRUE ELSE 0
      m1 == [m EXCEPT !.lis[port] = "lib", !.own[port] = v, !.hard = IF v = 0 THEN @ ELSE [@ EXCEPT ![v] = FALSE], !.told = IF v = 0 THEN @ ELSE [@ EXCEPT ![v] = FALSE]]
      m2 == MarkPend(m1, LAMBDA p : p.op = "start" /\ p.port = port /\ (v = 0 \/ p.v = v), "listened", TRUE)
  IN MarkPend(m2, LAMBDA p : p.op = "start" /\ p.port = port /\ (v = 0 \/ p.v # v), "conflict", TRUE)
RawListen(m, port) == MarkPend([m EXCEPT !.lis[port] = "raw", !.own[port] = 0], LAMBDA p : p.op = "start" /\ p.port = port, "conflict", TRUE)

RemoveFirst(s, c) == LET i == CHOOSE i \in 1..Len(s) : s[i] = c IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Err(m, e) ==
  LET mine == {p \in m.pend : p.op = "start" /\ p.v = e.v /\ p.tid = e.t}
  IN IF mine # {} THEN LET p == CHOOSE p \in mine : TRUE IN [m EXCEPT !.pend = (@ \ {p}) \cup {[p EXCEPT !.errs = @ + 1]}]
     ELSE Must(m.hard[e.v] /\ ~m.told[e.v] /\ ~m.idle[e.v], [m EXCEPT !.told[e.v] = TRUE], "C20", "error reported")
Cb(m, e) ==
  LET mine == SelectSeq(m.acc, LAMBDA a : a.v = e.v \/ a.v = 0)
  IN Must(/\ ~m.idle[e.v] /\ m.cb[e.v] = 0
          /\ Len(mine) > 0 /\ mine[1].c = e.c /\ e.c \notin m.done,
          [m EXCEPT !.cb[e.v] = e.c + 1, !.done = @ \cup {e.c}, !.acc = IF mine = <<>> THEN @ ELSE RemoveFirst(@, mine[1])], "C20", "callback")

Waits(m, p) ==
  CASE p.op \in {"start", "stop"} -> m.cb[p.v] # 0
    [] p.op = "connect" -> p.ms = 0 /\ m.lis[p.port] # "no" /\ m.q[p.port] # <<>>
Quiet(m) ==
  LET m1 == Must(\A p \in m.pend : Waits(m, p), m, "C20", "stuck")
      m2 == Must(\A p \in Ports : m.lis[p] = "lib" /\ m.own[p] # 0 /\ m.cb[m.own[p]] = 0 /\ ~m.hard[m.own[p]] => m.q[p] = <<>>, m1, "C20", "connection not accepted")
  IN Must(\A i \in 1..Len(m.acc) : LET v == m.acc[i].v IN v = 0 \/ m.cb[v] # 0 \/ m.idle[v] \/ (\E p \in m.pend : p.op # "connect" /\ p.v = v), m2, "C20", "connection not passed on")

Step(m, e) ==
  CASE e.e = "call" -> Call(m, e)
    [] e.e = "ret" -> Ret(m, e)
    [] e.e = "as" -> MarkPend(m, LAMBDA p : p.t = e.t, "tid", e.tid)
    [] e.e = "listen" -> Listen(m, e.port)
    [] e.e = "rawlisten" -> RawListen(m, e.port)
    [] e.e = "unlisten" -> [m EXCEPT !.lis[e.port] = "no", !.own[e.port] = 0, !.q[e.port] = <<>>]
    [] e.e = "est" -> [m EXCEPT !.est = @ \cup {e.c}, !.q[e.port] = Append(@, e.c)]
    [] e.e = "accept" -> [m EXCEPT !.q[e.port] = RemoveFirst(@, e.c), !.acc = Append(@, [c |-> e.c, v |-> m.own[e.port]])]
    [] e.e = "refused" -> [m EXCEPT !.refused = @ \cup {e.c}]
    [] e.e = "rst" -> [m EXCEPT !.rst = @ \cup {e.c}]
    [] e.e = "fault" -> IF e.op = "accept" THEN [m EXCEPT !.hard = [v \in Servers |-> @[v] \/ Owned(m, v) # {} \/ \E p \in Ports : m.lis[p] = "lib" /\ m.own[p] = 0]]
                        ELSE MarkPend(m, LAMBDA p : p.tid = e.t, "fault", TRUE)
    [] e.e = "err" -> Err(m, e)
    [] e.e = "cb" -> Cb(m, e)
    [] e.e = "cbret" -> [m EXCEPT !.cb[e.v] = 0]
    [] e.e = "quiet" -> Quiet(m)
    [] e.e = "end" -> Must(e.fds = 0, m, "C20", "descriptor leaked")
    [] e.e = "Sigpipe" -> Bad(m, "C19", "process terminated by SIGPIPE")
    [] e.e = "BadFd" -> Bad(Bad(m, "C19", "closed descriptor used"), "C20", "closed descriptor used")
    [] OTHER -> m
Known == {"call", "ret", "as", "listen", "rawlisten", "unlisten", "est", "accept", "refused", "rst", "fault", "err", "cb", "cbret", "quiet", "end", "Sigpipe", "BadFd", "server"}
=============================================================================
