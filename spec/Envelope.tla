-------------------------------- MODULE Envelope --------------------------------
(* What a session makes of the content of one received message.  The content *)
(* is a JSON value j (DataModel's representation) or is not JSON at all.     *)
(*                                                                           *)
(* Reactions: [k |-> "err"]: reported to the error handler, nothing else;    *)
(*   [k |-> "call", kind, n, v]: the handler of request / event n is called  *)
(*     with the decoded arguments / body v;                                  *)
(*   [k |-> "ok", q, v]: request q of this side is resolved with body v;     *)
(*   [k |-> "fail", q, m]: ... with an error (message m, "" if none given);  *)
(*   [k |-> "okany", q]: ... with some value: the body is missing or does    *)
(*     not fit the response type and what the future then holds is left open.*)
(* More than one reaction may be allowed.                                    *)
EXTENDS Naturals, Sequences
CONSTANTS Types,      \* structure definitions (DataModel's Env)
          Requests,   \* record: command -> structure name, registered handlers
          Events,     \* record: event -> structure name
          Response    \* structure name of the responses to this side's requests

D == INSTANCE DataModel WITH Env <- Types
Ref(n) == [k |-> "ref", n |-> n]
EmptyObject == [k |-> "o", o |-> <<>>]

\* the member m of j, when it has kind k
Has(j, m, k) == D!HasMember(j, m) /\ D!Member(j, m).k = k
Err == {[k |-> "err"]}

\* arguments and body may be left out when the structure has no required field
Payload(t, j, m) == D!Decode(Ref(t), IF D!HasMember(j, m) THEN D!Member(j, m) ELSE EmptyObject)
NoFields(t) == D!Fields(t) = <<>>

Deliver(kind, n, t, j, m) ==
  LET v == Payload(t, j, m)
      call == [k |-> "call", kind |-> kind, n |-> n, v |-> v]
  IN IF NoFields(t) /\ D!HasMember(j, m) /\ D!Member(j, m).k # "o"
     THEN Err \cup {[k |-> "call", kind |-> kind, n |-> n, v |-> [k |-> "t", t |-> <<>>]]}
     ELSE IF D!IsOk(v) THEN {call} ELSE Err

OnRequest(j) ==
  IF ~Has(j, "command", "s") THEN Err
  ELSE LET c == D!Member(j, "command").s
       IN IF c \in DOMAIN Requests THEN Deliver("request", c, Requests[c], j, "arguments") ELSE Err

OnEvent(j) ==
  IF ~Has(j, "event", "s") THEN Err
  ELSE LET c == D!Member(j, "event").s
       IN IF c \in DOMAIN Events THEN Deliver("event", c, Events[c], j, "body") ELSE Err

OnResponse(j, outstanding) ==
  IF ~Has(j, "request_seq", "i") \/ ~Has(j, "success", "b") THEN Err
  ELSE LET q == D!Member(j, "request_seq").i
       IN IF q \notin outstanding THEN Err
          ELSE IF D!Member(j, "success").b = "true"
          THEN IF D!HasMember(j, "body") /\ D!IsOk(D!Decode(Ref(Response), D!Member(j, "body")))
               THEN {[k |-> "ok", q |-> q, v |-> D!Decode(Ref(Response), D!Member(j, "body"))]}
               ELSE {[k |-> "okany", q |-> q]}
          ELSE {[k |-> "fail", q |-> q, m |-> IF Has(j, "message", "s") THEN D!Member(j, "message").s ELSE ""]}

React(j, outstanding) ==
  IF j.k # "o" \/ ~Has(j, "type", "s") \/ ~Has(j, "seq", "i") THEN Err
  ELSE LET ty == D!Member(j, "type").s
       IN CASE ty = "request" -> OnRequest(j)
            [] ty = "event" -> OnEvent(j)
            [] ty = "response" -> OnResponse(j, outstanding)
            [] OTHER -> Err
=============================================================================
