------------------------------ MODULE DataTrace ------------------------------
(* Recorded decodings and encodings of the real serializers.                 *)
(*   dec: text j (as parsed by an independent parser) decoded as type t      *)
(*   enc: value v of type t encoded as text, j its parse; ok: it was accepted *)
(*   name: the type's protocol name (command, event)                         *)
EXTENDS TraceBatch, FiniteSets
Environment == JsonDeserialize(IOEnv.VTYPES)
J == INSTANCE DataModel WITH Env <- Environment.types
Type(n) == Environment.roots[n]
\* a structure without fields has no content: whether it is accepted from a
\* value that is not an object is left open
Empty(t) == t.k = "ref" /\ J!Fields(t.n) = <<>>
OkDec(e) == IF Empty(Type(e.t)) /\ e.j.k # "o" THEN TRUE ELSE
            LET r == J!Decode(Type(e.t), e.j)
            IN IF J!IsOk(r) THEN e.ok /\ e.v = r ELSE ~e.ok
OkEnc(e) == e.ok /\ e.valid /\ J!Encodes(Type(e.t), e.v, e.j)
\* structures and responses have no name of their own in the protocol
OkName(e) == e.t \in DOMAIN Environment.names => Environment.names[e.t] = e.n
\* a message written by a session for the value v of type t
OkMsg(e) ==
  /\ e.type = e.kind
  /\ e.n = IF e.kind = "response" THEN Environment.commands[e.t] ELSE Environment.names[e.t]
  /\ \/ J!Encodes(Type(e.t), e.v, e.j)
     \/ e.j.k = "missing" /\ \A x \in 1..Len(e.v.t) : e.v.t[x].v.k = "u"
Cross(e) == e.ok /\ e.back = e.v
TInit == BatchInit
TNext == /\ HasE
         /\ \/ E.e = "dec" /\ OkDec(E)
            \/ E.e = "enc" /\ OkEnc(E)
            \/ E.e = "name" /\ OkName(E)
            \/ E.e = "msg" /\ OkMsg(E)
            \/ E.e = "back" /\ Cross(E)
            \/ E.e = "alive"
         /\ Consume
TSpec == TInit /\ [][TNext]_<<tid, l>>
=============================================================================
