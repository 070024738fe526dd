----------------------------- MODULE EnvelopeCheck -----------------------------
(* The dispatching rules themselves, on every sequence of up to MaxMsgs      *)
(* messages from a bounded family: bad messages change nothing (a run with   *)
(* them and the run without them deliver the same), every request of this    *)
(* side is resolved at most once, a handler is only called for registered    *)
(* names with a value of its type.                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxMsgs, Big
T == [A |-> [base |-> "", f |-> <<[n |-> "a", t |-> [k |-> "int"]]>>],
      O |-> [base |-> "", f |-> <<[n |-> "a", t |-> [k |-> "opt", e |-> [k |-> "int"]]]>>],
      E0 |-> [base |-> "", f |-> <<>>]]
Rq == [ra |-> "A", ro |-> "O"]
Ev == [ea |-> "A", eo |-> "O", ee |-> "E0"]
V == INSTANCE Envelope WITH Types <- T, Requests <- Rq, Events <- Ev, Response <- "A"

S(x) == [k |-> "s", s |-> x]
I(x) == [k |-> "i", i |-> x, d |-> x]
B(x) == [k |-> "b", b |-> x]
N == [k |-> "n"]
\* a member present with one of the values, or absent
Opt(n, X) == {<<>>} \cup {<<[n |-> n, v |-> x]>> : x \in X}
Args == {[k |-> "o", o |-> <<>>], [k |-> "o", o |-> <<[n |-> "a", v |-> I("5")]>>], [k |-> "o", o |-> <<[n |-> "a", v |-> S("5")]>>], N}
       \cup IF Big THEN {I("5"), [k |-> "a", a |-> <<>>]} ELSE {}
Seqs == {I("9"), S("9")} \cup IF Big THEN {N} ELSE {}
Msgs == {[k |-> "o", o |-> a \o c \o s \o t] : a \in Opt("arguments", Args), c \in Opt("command", {S("ra"), S("ro"), S("zz"), I("1")}),
                                              s \in Opt("seq", Seqs), t \in {<<[n |-> "type", v |-> S("request")]>>}}
   \cup {[k |-> "o", o |-> a \o c \o s \o t] : a \in Opt("body", Args), c \in Opt("event", {S("ea"), S("eo"), S("ee"), S("zz")}),
                                              s \in Opt("seq", {I("9")}), t \in Opt("type", {S("event")})}
   \cup {[k |-> "o", o |-> a \o q \o s \o u \o t] : a \in Opt("body", Args), q \in Opt("request_seq", {I("1"), I("2"), I("7"), S("1")}),
                                              s \in Opt("seq", {I("9")}), u \in Opt("success", {B("true"), B("false"), N}), t \in {<<[n |-> "type", v |-> S("response")]>>}}
   \cup {N, I("1"), [k |-> "a", a |-> <<>>], [k |-> "o", o |-> <<>>], [k |-> "o", o |-> <<[n |-> "seq", v |-> I("1")], [n |-> "type", v |-> S("other")]>>]}

VARIABLES out, out2, count, log, log2, nbad
vars == <<out, out2, count, log, log2, nbad>>
Init == out = {"1", "2"} /\ out2 = {"1", "2"} /\ count = 0 /\ log = <<>> /\ log2 = <<>> /\ nbad = 0

Effect(o, r) == IF r.k \in {"ok", "okany", "fail"} THEN o \ {r.q} ELSE o
Next ==
  /\ count < MaxMsgs /\ count' = count + 1
  /\ \E m \in Msgs : \E r \in V!React(m, out) :
       /\ out' = Effect(out, r)
       /\ log' = IF r.k = "err" THEN log ELSE Append(log, r)
       /\ nbad' = IF r.k = "err" THEN nbad + 1 ELSE nbad
       \* the same history without the bad messages
       /\ IF r.k = "err" THEN UNCHANGED <<out2, log2>>
          ELSE \E r2 \in V!React(m, out2) : r2 = r /\ out2' = Effect(out2, r2) /\ log2' = Append(log2, r2)
Spec == Init /\ [][Next]_vars

Contained == out = out2 /\ log = log2 /\ Len(log) + nbad = count
ResolvedOnce == \A q \in {"1", "2"} : Cardinality({x \in 1..Len(log) : log[x].k \in {"ok", "okany", "fail"} /\ log[x].q = q}) = (IF q \in out THEN 0 ELSE 1)
Typed == \A x \in 1..Len(log) : log[x].k = "call" =>
           LET t == IF log[x].kind = "request" THEN Rq[log[x].n] ELSE Ev[log[x].n]
           IN [y \in 1..Len(log[x].v.t) |-> log[x].v.t[y].n] = [y \in 1..Len(V!D!Fields(t)) |-> V!D!Fields(t)[y].n]
\* every message has some reaction, and a good one whatever else is outstanding
ASSUME \A m \in Msgs : V!React(m, {"1", "2"}) # {} /\ V!React(m, {}) # {}
=============================================================================
