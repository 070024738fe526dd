----------------------------- MODULE EnvelopeTrace -----------------------------
(* Recorded reactions of real sessions to message contents.                  *)
(*   sent: this side sent a request (seq q)                                  *)
(*   in:   a content was received; cls "tree" (j is its JSON value),         *)
(*         "broken" (not JSON), or "odd" (texts on which the JSON libraries  *)
(*         may differ: reported or processed, but contained).                *)
(*         errs: reports to the error handler, calls: handlers called,       *)
(*         res: futures that became ready, replies: request_seq of the       *)
(*         responses written.                                                *)
(* Each "in" is recorded only when a marker message sent after it has been   *)
(* handled in the normal way (otherwise the trace has a "Stuck" event).      *)
EXTENDS TraceBatch, FiniteSets
VARIABLE out
World == JsonDeserialize(IOEnv.VTYPES)
V == INSTANCE Envelope WITH Types <- World.types, Requests <- World.requests, Events <- World.events, Response <- "ERes"

Quiet(e) == e.calls = <<>> /\ e.res = <<>> /\ e.replies = <<>>
Matches(e, r) ==
  CASE r.k = "err" -> e.errs >= 1 /\ Quiet(e)
    [] r.k = "call" -> /\ e.errs = 0 /\ e.res = <<>>
                       /\ e.calls = <<[kind |-> r.kind, n |-> r.n, v |-> r.v]>>
                       /\ e.replies = IF r.kind = "request" THEN <<V!D!Member(e.j, "seq").i>> ELSE <<>>
    [] r.k \in {"ok", "okany", "fail"} ->
         /\ e.errs = 0 /\ e.calls = <<>> /\ e.replies = <<>>
         /\ Len(e.res) = 1 /\ e.res[1].q = r.q
         /\ e.res[1].ok = (r.k # "fail")
         /\ r.k = "ok" => e.res[1].v = r.v
         /\ r.k = "fail" /\ r.m # "" => e.res[1].m = r.m

OkIn(e) ==
  CASE e.cls = "tree" -> \E r \in V!React(e.j, out) : Matches(e, r)
    [] e.cls = "broken" -> e.errs >= 1 /\ Quiet(e)
    [] e.cls = "odd" -> /\ \A x \in 1..Len(e.res) : e.res[x].q \in out
                        /\ Len(e.res) + Len(e.calls) <= 1
                        /\ e.errs >= 1 => Quiet(e)
                        /\ Len(e.calls) + Len(e.res) = 0 => e.errs >= 1

TInit == BatchInit /\ out = {}
TNext == /\ HasE
         /\ \/ E.e = "sent" /\ E.q \notin out /\ out' = out \cup {E.q}
            \/ E.e = "in" /\ OkIn(E) /\ out' = out \ {E.res[x].q : x \in 1..Len(E.res)}
            \/ E.e = "end" /\ out' = out
         /\ Consume
TSpec == TInit /\ [][TNext]_<<tid, l, out>>
=============================================================================
