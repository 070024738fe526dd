------------------------------- MODULE Session -------------------------------
(* What an application and its peer observe of a session.  The state m is a  *)
(* record; Step(m, e) is the state after the observable event e, and         *)
(* Step(m, e).bad the set of properties (C01 ...) that e breaks.  It is used *)
(* in two ways: SessionTrace replays executions recorded from the real code, *)
(* SessionImpl is a model of the threads of the implementation whose every   *)
(* observable step goes through Step, so TLC checks that the algorithm never *)
(* breaks a property.                                                        *)
(*                                                                           *)
(* Events (record fields):                                                   *)
(*  Init sent late onclose pump   which responses have sent handlers; which  *)
(*                             messages have no handler yet; ...             *)
(*  RegRet k cmd               a handler of kind k has been registered       *)
(*  Unconnected, Connect       the endpoint (not) being there                *)
(*  SendCall t k cmd id        the application calls send; k = req | evt     *)
(*  SendRet t k id r ready ok v   r: 0 failed, 1 succeeded, 2 unknown        *)
(*  Wire seq k cmd id rs ok v  a complete frame has been written             *)
(*  WireBad, WRefuse, WClosed  garbage written; write refused; writer closed *)
(*  Deliver k seq cmd id rs ok v  the last byte of a message was handed over *)
(*  Eof, RClosed               end of stream; reader closed                  *)
(*  HBegin k cmd id good reg, HEnd id    a handler runs                      *)
(*  Resp t id ok v, RespRet    the handler completes the request             *)
(*  Sent cmd ok v reg          response-sent handler                         *)
(*  Fut id ready ok v          a future is (or, at rest, is not) ready       *)
(*  Err h, SetErrCall h, SetErr h, Misuse    error reports                   *)
(*  OnClose n, DtorCall, DtorRet, Quiesce, End, Stray                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Nil == [x \in {} |-> 0]
Start == [ sent |-> {}, onclose |-> 0, h |-> 0, hok |-> {},
           wclosed |-> TRUE, rclosed |-> FALSE, eof |-> FALSE, dtor |-> 0,
           req |-> Nil,        \* id -> [st, cmd, seq, ok, v, wbad]
           evt |-> Nil,        \* id -> [st, cmd, wbad]
           seqs |-> {},        \* sequence numbers written
           late |-> {},        \* messages without a handler so far
           inbox |-> <<>>,     \* accepted, not yet dispatched; may: had no handler
           running |-> {},     \* handlers running, by id
           begun |-> Nil,      \* request id -> [seq, cmd]
           resp |-> Nil,       \* request id -> [ok, v, st, sent, wbad]
           dueR |-> 0, dueA |-> 0, dueB |-> 0, allowed |-> 0, got |-> 0,
           nclose |-> 0, bad |-> {} ]

V(p, c) == IF c THEN {} ELSE {p}
Anything == {90, 91}             \* failure without a message
Match(r, ok, v) == r.ok = ok /\ (r.v = v \/ (ok = 0 /\ r.v \in Anything))
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Set(f, k, r) == (k :> r) @@ f
\* the second completion of a request has an id of its own
Base(i) == IF i > 1000 THEN i - 1000 ELSE i
AfterEnd(m) == V("C08", m.dtor < 2)
InFlight(m) ==
    Cardinality({i \in DOMAIN m.req : m.req[i].st = "calling"})
  + Cardinality({i \in DOMAIN m.evt : m.evt[i].st = "calling"})
  + Cardinality({i \in DOMAIN m.resp : m.resp[i].st = "called"})
MarkBad(m) ==
  [m EXCEPT !.req = [i \in DOMAIN m.req |-> IF m.req[i].st = "calling" THEN [m.req[i] EXCEPT !.wbad = TRUE] ELSE m.req[i]],
            !.evt = [i \in DOMAIN m.evt |-> IF m.evt[i].st = "calling" THEN [m.evt[i] EXCEPT !.wbad = TRUE] ELSE m.evt[i]],
            !.resp = [i \in DOMAIN m.resp |-> IF m.resp[i].st = "called" THEN [m.resp[i] EXCEPT !.wbad = TRUE] ELSE m.resp[i]]]
\* a send (or response) begun while the endpoint is not open has to be reported
SendStarts(m) == IF m.wclosed THEN [m EXCEPT !.dueA = @ + 1, !.allowed = @ + 1] ELSE m

Errors(m) ==
  LET few == m.got < m.dueR + m.dueA + m.dueB
      many == m.got > m.allowed
  IN  IF m.h = 0 \/ (~few /\ ~many) THEN {}   \* h = 0: no error handler is set
      ELSE (IF m.dueR > 0 THEN {"C01"} ELSE {}) \cup (IF m.dueA > 0 THEN {"C09"} ELSE {})
           \cup (IF m.dueB > 0 \/ (m.dueR = 0 /\ m.dueA = 0) THEN {"C07"} ELSE {})

----------------------------------------------------------------------------
SendCall(m, e) ==
  LET n == SendStarts(m)
  IN IF e.k = "req"
     THEN [n EXCEPT !.req = Set(@, e.id, [st |-> "calling", cmd |-> e.cmd, seq |-> 0, ok |-> 0, v |-> 0, wbad |-> m.wclosed])]
     ELSE [n EXCEPT !.evt = Set(@, e.id, [st |-> "calling", cmd |-> e.cmd, wbad |-> m.wclosed])]

SendRet(m, e) ==
  IF e.k = "req"
  THEN LET r == m.req[e.id]
       IN CASE r.st = "calling" -> [m EXCEPT !.req[e.id].st = "failed",
                                     !.bad = V("C04", r.wbad) \cup V("C09", e.ready = 1 /\ e.ok = 0)]
            [] r.st = "out" -> [m EXCEPT !.bad = V("C01", e.ready = 0)]
            [] OTHER -> [m EXCEPT !.bad = V("C01", e.ready = 1 => Match(r, e.ok, e.v))]
  ELSE LET r == m.evt[e.id]
           w == r.st = "wired"
       IN [m EXCEPT !.evt[e.id].st = IF w THEN "wired" ELSE "failed",
             !.bad = V("C04", CASE e.r = 1 -> w [] e.r = 0 -> ~w /\ r.wbad [] OTHER -> w \/ r.wbad)]

Wire(m, e) ==
  LET n == [m EXCEPT !.seqs = @ \cup {e.seq}]
      b == V("C04", e.seq \notin m.seqs) \cup AfterEnd(m)
  IN CASE e.k = "req" ->
            IF e.id \in DOMAIN m.req /\ m.req[e.id].st = "calling" /\ m.req[e.id].cmd = e.cmd
            THEN [n EXCEPT !.req[e.id].st = "out", !.req[e.id].seq = e.seq, !.bad = b]
            ELSE [n EXCEPT !.bad = b \cup {"C04"}]
       [] e.k = "evt" ->
            IF e.id \in DOMAIN m.evt /\ m.evt[e.id].st = "calling" /\ m.evt[e.id].cmd = e.cmd
            THEN [n EXCEPT !.evt[e.id].st = "wired", !.bad = b]
            ELSE [n EXCEPT !.bad = b \cup {"C04"}]
       [] OTHER ->
            LET is == {i \in DOMAIN m.resp : /\ m.resp[i].st = "called" /\ m.resp[i].ok = e.ok /\ m.resp[i].v = e.v
                                            /\ m.begun[Base(i)].seq = e.rs /\ m.begun[Base(i)].cmd = e.cmd}
            IN IF is # {} THEN [n EXCEPT !.resp[Min(is)].st = "wired", !.bad = b]
               ELSE [n EXCEPT !.bad = b \cup {"C02"}]

Deliver(m, e) ==
  CASE e.k \in {"req", "evt"} -> [m EXCEPT !.inbox = Append(@, [k |-> e.k, cmd |-> e.cmd, id |-> e.id, seq |-> e.seq, may |-> e.cmd \in m.late]),
                                            !.allowed = IF e.cmd \in m.late THEN @ + 2 ELSE @]
    [] e.k = "resp" ->
         LET is == {i \in DOMAIN m.req : m.req[i].st = "out" /\ m.req[i].seq = e.rs}
         IN IF is # {} THEN LET i == Min(is) IN [m EXCEPT !.req[i].st = "res", !.req[i].ok = e.ok, !.req[i].v = e.v]
            ELSE [m EXCEPT !.dueR = @ + 1, !.allowed = @ + 2]
    [] e.k = "unk" -> [m EXCEPT !.dueR = @ + 1, !.allowed = @ + 2]
    [] OTHER -> [m EXCEPT !.dueB = @ + 1, !.allowed = @ + 2]

Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* A message that arrived before its handler was registered may be handled or
\* be dropped; that it was dropped shows when a later one is handled or when
\* nothing moves any more, and has to be reported.
Dropped(m, n) ==
  LET ds == {i \in 1..n : m.inbox[i].may}
  IN [m EXCEPT !.inbox = SelectSeq(SubSeq(@, 1, n), LAMBDA x : ~x.may) \o SubSeq(@, n + 1, Len(@)),
               !.dueB = @ + Cardinality(ds)]
HBegin(m0, e) ==
  LET at0 == {i \in 1..Len(m0.inbox) : m0.inbox[i].k = e.k /\ m0.inbox[i].cmd = e.cmd /\ m0.inbox[i].id = e.id}
      m == IF at0 = {} THEN m0 ELSE Dropped(m0, Min(at0) - 1)
      at == {i \in 1..Len(m.inbox) : m.inbox[i].k = e.k /\ m.inbox[i].cmd = e.cmd /\ m.inbox[i].id = e.id}
      what == IF e.k = "req" THEN "C02" ELSE "C03"
      late == IF m.rclosed \/ m.eof \/ m.dtor > 0 THEN {"C08"} ELSE {}
      b == AfterEnd(m) \cup V("C09", e.reg = 1) \cup V("C03", m.running = {}) \cup V(what, e.good = 1)
  IN IF at = {} THEN [m EXCEPT !.running = @ \cup {e.id}, !.bad = b \cup {what} \cup late]
     ELSE LET i == Min(at)
              n == [m EXCEPT !.inbox = Without(@, i), !.running = @ \cup {e.id},
                             !.bad = b \cup (IF i = 1 THEN {} ELSE {"C03"} \cup late)]
          IN IF e.k = "req" THEN [n EXCEPT !.begun = Set(@, e.id, [seq |-> m.inbox[i].seq, cmd |-> e.cmd])] ELSE n

HEnd(m, e) == [m EXCEPT !.running = @ \ {e.id}, !.bad = AfterEnd(m)]

Resp(m, e) == [SendStarts(m) EXCEPT
  !.resp = Set(@, e.id, [ok |-> e.ok, v |-> e.v, st |-> "called", sent |-> 0, wbad |-> m.wclosed,
                         must |-> Base(e.id) \in DOMAIN m.begun /\ m.begun[Base(e.id)].cmd \in m.sent])]
\* answered: the response is on the wire (or could not be written) and the
\* sent handler has run
Answered(m, i) ==
  /\ m.resp[i].st = "wired" \/ m.resp[i].wbad
  /\ (m.resp[i].st = "wired" /\ m.resp[i].must) => m.resp[i].sent = 1
RespRet(m, e) == [m EXCEPT !.bad = V("C02", Answered(m, e.id))]

Sent(m, e) ==
  LET is == {i \in DOMAIN m.resp : /\ m.resp[i].st = "wired" \/ m.resp[i].wbad
                                  /\ m.resp[i].sent = 0 /\ m.resp[i].ok = e.ok /\ m.resp[i].v = e.v
                                  /\ m.begun[Base(i)].cmd = e.cmd}
      b == AfterEnd(m) \cup V("C09", e.reg = 1)
  IN IF is = {} THEN [m EXCEPT !.bad = b \cup {"C02"}]
     ELSE [m EXCEPT !.resp[Min(is)].sent = 1, !.bad = b]

Fut(m, e) ==
  LET r == m.req[e.id]
  IN [m EXCEPT !.bad =
        IF e.ready = 0 THEN CASE r.st = "res" -> {"C01", "C03"} [] r.st = "failed" -> {"C09"} [] OTHER -> {}
        ELSE CASE r.st = "res" -> V("C01", Match(r, e.ok, e.v))
               [] r.st = "failed" -> IF e.ok = 0 THEN {} ELSE {"C01", "C09"}
               [] OTHER -> {"C01"}]

CloseDone(m) == V("C08", (m.onclose = 1 /\ (m.rclosed \/ m.eof)) => m.nclose = 1)

Quiesce(m0) ==
  LET m == IF m0.running = {} THEN Dropped(m0, Len(m0.inbox)) ELSE m0
  IN [m EXCEPT !.bad =
     Errors(m) \cup CloseDone(m)
     \cup V("C09", \A i \in DOMAIN m.req : m.req[i].st # "calling")
     \cup V("C02", \A i \in DOMAIN m.resp : Answered(m, i))
     \cup (IF m.running # {} \/ m.inbox = <<>> THEN {}
           ELSE {"C03"} \cup {"C02" : i \in {j \in 1..Len(m.inbox) : m.inbox[j].k = "req"}})]

DtorRet(m) ==
  [m EXCEPT !.dtor = 2,
     !.bad = Errors(m) \cup V("C08", m.rclosed /\ m.wclosed /\ m.running = {}) \cup CloseDone(m)
             \cup V("C02", \A i \in DOMAIN m.resp : Answered(m, i))]

Known == {"Init", "RegRet", "Unconnected", "Connect", "SendCall", "SendRet", "Wire", "WireBad", "WRefuse", "WClosed", "Deliver",
          "Eof", "RClosed", "HBegin", "HEnd", "Resp", "RespRet", "Sent", "Fut", "Err", "SetErrCall", "SetErr", "Misuse", "OnClose", "HandlerGone",
          "DtorCall", "DtorRet", "Quiesce", "End", "Stray"}
Step(m0, e) ==
  LET m == [m0 EXCEPT !.bad = {}]
  IN CASE e.e = "Init" -> [m EXCEPT !.sent = {e.sent[i] : i \in 1..Len(e.sent)}, !.onclose = e.onclose,
                                              !.late = {e.late[i] : i \in 1..Len(e.late)}]
       [] e.e = "RegRet" -> IF e.k = "sent" THEN [m EXCEPT !.sent = @ \cup {e.cmd}] ELSE [m EXCEPT !.late = @ \ {e.cmd}]
       [] e.e = "Unconnected" -> m
       [] e.e = "Connect" -> [m EXCEPT !.wclosed = FALSE]
       [] e.e = "SendCall" -> SendCall(m, e)
       [] e.e = "SendRet" -> SendRet(m, e)
       [] e.e = "Wire" -> Wire(m, e)
       [] e.e = "WireBad" -> [m EXCEPT !.bad = {"C04"}]
       [] e.e = "WRefuse" -> [MarkBad(m) EXCEPT !.allowed = @ + 1]
       [] e.e = "WClosed" -> [MarkBad(m) EXCEPT !.wclosed = TRUE, !.allowed = @ + InFlight(m)]
       [] e.e = "Deliver" -> Deliver(m, e)
       [] e.e = "Eof" -> [m EXCEPT !.eof = TRUE]
       [] e.e = "RClosed" -> [m EXCEPT !.rclosed = TRUE]
       [] e.e = "HBegin" -> HBegin(m, e)
       [] e.e = "HEnd" -> HEnd(m, e)
       [] e.e = "Resp" -> Resp(m, e)
       [] e.e = "RespRet" -> RespRet(m, e)
       [] e.e = "Sent" -> Sent(m, e)
       [] e.e = "Fut" -> Fut(m, e)
       [] e.e = "Err" -> [m EXCEPT !.got = @ + 1, !.bad = AfterEnd(m) \cup V("C09", e.h \in m.hok)]
       [] e.e = "SetErrCall" -> [m EXCEPT !.hok = @ \cup {e.h}]
       [] e.e = "SetErr" -> [m EXCEPT !.h = e.h, !.hok = IF e.calm = 1 THEN {e.h} ELSE @ \cup {e.h}]
       [] e.e = "Misuse" -> [m EXCEPT !.dueA = @ + 1, !.allowed = @ + 1]
       [] e.e = "OnClose" -> [m EXCEPT !.nclose = @ + 1,
              !.bad = AfterEnd(m) \cup V("C09", e.n = 1) \cup V("C08", m.nclose = 0 /\ (m.rclosed \/ m.eof))]
       [] e.e = "DtorCall" -> [m EXCEPT !.dtor = 1]
       [] e.e = "DtorRet" -> DtorRet(m)
       [] e.e = "Quiesce" -> [Quiesce(m) EXCEPT !.hok = {m.h}]
       [] e.e = "End" -> m
       [] e.e = "HandlerGone" -> [m EXCEPT !.bad = {"C09"}]   \* destroyed while it ran
       [] e.e = "Stray" -> [m EXCEPT !.bad = {"C09"}]
=============================================================================
