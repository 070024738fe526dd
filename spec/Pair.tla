-------------------------------- MODULE Pair --------------------------------
(* Two sessions joined by a stream: what the applications on both sides see. *)
(* The state p is a record; Step(p, e) the state after event e, with          *)
(* Step(p, e).bad set if e cannot happen.                                     *)
(*   Send s t k id      side s begins to send request or event id            *)
(*   SendRet s id r     r: 0 it failed, 1 it did not, 2 unknown              *)
(*   HBegin s k id good, HEnd s id     a handler of side s runs              *)
(*   Resp s id ok v     the handler completes the request                    *)
(*   Fut s id ready ok v   the future of the request                         *)
(*   Closing            one side is about to close or be destroyed           *)
(*   OnClose s, DtorRet s, Quiesce                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Nil == [x \in {} |-> 0]
Start == [msg |-> Nil, running |-> [s \in {0, 1} |-> {}], resp |-> Nil,
          closing |-> FALSE, nclose |-> [s \in {0, 1} |-> 0], dead |-> {}, bad |-> FALSE]
Set(f, k, r) == (k :> r) @@ f
Must(p, c) == [p EXCEPT !.bad = ~c]

\* before: what the same side had finished sending
Send(p, e) == [p EXCEPT !.msg = Set(@, e.id, [from |-> e.s, k |-> e.k, ret |-> FALSE, st |-> "sent",
                                              before |-> {i \in DOMAIN p.msg : p.msg[i].from = e.s /\ p.msg[i].ret}])]
SendRet(p, e) ==
  LET n == [p EXCEPT !.msg[e.id].ret = TRUE]
  IN IF e.r = 0 THEN Must([n EXCEPT !.msg[e.id].st = "failed"], p.closing /\ p.msg[e.id].st = "sent") ELSE n
\* everything that side had finished sending before must have been handled
InOrder(p, id) == \A i \in p.msg[id].before : p.msg[i].st # "sent"
HBegin(p, e) ==
  IF e.id \notin DOMAIN p.msg THEN Must(p, FALSE)
  ELSE LET x == p.msg[e.id]
       IN Must([p EXCEPT !.msg[e.id].st = "handled", !.running[e.s] = @ \cup {e.id}],
               /\ x.from = 1 - e.s /\ x.k = e.k /\ x.st = "sent" /\ e.good = 1
               /\ p.running[e.s] = {} /\ e.s \notin p.dead /\ InOrder(p, e.id))
HEnd(p, e) == Must([p EXCEPT !.running[e.s] = @ \ {e.id}], e.s \notin p.dead)
Resp(p, e) == [p EXCEPT !.resp = Set(@, e.id, [ok |-> e.ok, v |-> e.v])]
Fut(p, e) ==
  LET x == p.msg[e.id]
      answered == e.id \in DOMAIN p.resp
  IN IF e.ready = 0 THEN Must(p, p.closing /\ x.st # "failed")
     ELSE Must(p, \/ answered /\ p.resp[e.id].ok = e.ok /\ p.resp[e.id].v = e.v
                  \/ p.closing /\ ~answered /\ e.ok = 0)
OnClose(p, e) == Must([p EXCEPT !.nclose[e.s] = @ + 1], p.closing /\ p.nclose[e.s] = 0 /\ e.s \notin p.dead)
Quiesce(p) ==
  Must(p, /\ \A s \in {0, 1} : p.running[s] = {}
          /\ p.closing => \A s \in {0, 1} : p.nclose[s] = 1
          /\ ~p.closing => \A i \in DOMAIN p.msg : p.msg[i].st = "handled" /\ (p.msg[i].k = "req" => i \in DOMAIN p.resp))
DtorRet(p, e) == Must([p EXCEPT !.dead = @ \cup {e.s}], p.running[e.s] = {} /\ p.nclose[e.s] = 1)
Known == {"Send", "SendRet", "HBegin", "HEnd", "Resp", "Fut", "Closing", "OnClose", "DtorRet", "Quiesce"}
Step(p0, e) ==
  LET p == [p0 EXCEPT !.bad = FALSE]
  IN CASE e.e = "Send" -> Send(p, e)
       [] e.e = "SendRet" -> SendRet(p, e)
       [] e.e = "HBegin" -> HBegin(p, e)
       [] e.e = "HEnd" -> HEnd(p, e)
       [] e.e = "Resp" -> Resp(p, e)
       [] e.e = "Fut" -> Fut(p, e)
       [] e.e = "Closing" -> [p EXCEPT !.closing = TRUE]
       [] e.e = "OnClose" -> OnClose(p, e)
       [] e.e = "DtorRet" -> DtorRet(p, e)
       [] e.e = "Quiesce" -> Quiesce(p)
=============================================================================
