-------------------------------- MODULE Values --------------------------------
(* Value semantics of any, optional and variant: registers hold values, the  *)
(* operations copy, move and replace them.  Nothing about storage: that is   *)
(* AnyImpl's concern.                                                        *)
(* Values: [t |-> type, s |-> text] for plain values, [t |-> "obj", o |->    *)
(* sequence of [n, v]] and [t |-> "arr", a |-> sequence] for containers of   *)
(* any, Null, and [t |-> "?"]: not specified (moved-from optional, variant). *)
EXTENDS Integers, Sequences, FiniteSets
Null == [t |-> "null"]
Unknown == [t |-> "?"]
Unset == [t |-> "unset"]

\* does an observed value agree with a specified one
RECURSIVE Agrees(_, _)
Agrees(s, obs) ==
  CASE s.t = "?" -> TRUE
    [] s.t = "obj" -> /\ obs.t = "obj" /\ Len(s.o) = Len(obs.o)
                      /\ \A x \in 1..Len(s.o) : s.o[x].n = obs.o[x].n /\ Agrees(s.o[x].v, obs.o[x].v)
    [] s.t = "arr" -> obs.t = "arr" /\ Len(s.a) = Len(obs.a) /\ \A x \in 1..Len(s.a) : Agrees(s.a[x], obs.a[x])
    [] OTHER -> s = obs

\* how many tracked objects a value contains
RECURSIVE Live(_), SumLive(_)
SumLive(q) == IF q = <<>> THEN 0 ELSE Live(Head(q)) + SumLive(Tail(q))
Live(v) == CASE v.t \in {"small", "big", "wide", "named"} -> 1
             [] v.t = "obj" -> SumLive([x \in 1..Len(v.o) |-> v.o[x].v])
             [] v.t = "arr" -> SumLive(v.a)
             [] OTHER -> 0

HasKey(v, n) == v.t = "obj" /\ \E x \in 1..Len(v.o) : v.o[x].n = n
At(v, n) == v.o[CHOOSE x \in 1..Len(v.o) : v.o[x].n = n].v
\* v with member n replaced or added (members sorted by name)
Less(a, b) == a = "k1" /\ b = "k2"
Put(v, n, w) ==
  IF HasKey(v, n) THEN [t |-> "obj", o |-> [x \in 1..Len(v.o) |-> IF v.o[x].n = n THEN [n |-> n, v |-> w] ELSE v.o[x]]]
  ELSE LET before == SelectSeq(v.o, LAMBDA m : Less(m.n, n))
           after == SelectSeq(v.o, LAMBDA m : Less(n, m.n))
       IN [t |-> "obj", o |-> before \o <<[n |-> n, v |-> w]>> \o after]

(* One operation on registers r (a function); e describes it.  The result is *)
(* the set of allowed next registers.                                        *)
AnyOp(r, e) ==
  CASE e.op \in {"new", "null", "reset"} -> {[r EXCEPT ![e.a] = Null]}
    [] e.op \in {"newval", "set"} -> {[r EXCEPT ![e.a] = e.v]}
    [] e.op \in {"newcopy", "copy"} -> {[r EXCEPT ![e.a] = r[e.b]]}
    [] e.op = "newmove" -> {[[r EXCEPT ![e.a] = r[e.b]] EXCEPT ![e.b] = Null]}
    [] e.op = "move" -> IF e.a = e.b THEN {r, [r EXCEPT ![e.a] = Null]}
                        ELSE {[[r EXCEPT ![e.a] = r[e.b]] EXCEPT ![e.b] = Null]}
    [] e.op = "put" -> {[r EXCEPT ![e.a] = Put(r[e.a], e.n, r[e.b])]}
    [] e.op = "take" -> {[r EXCEPT ![e.a] = At(r[e.b], e.n)]}
    [] e.op = "takemove" -> IF e.a = e.b THEN {[r EXCEPT ![e.a] = At(r[e.b], e.n)]}
                            ELSE {[[r EXCEPT ![e.a] = At(r[e.b], e.n)] EXCEPT ![e.b] = Put(r[e.b], e.n, Null)]}
    [] e.op = "elem" -> {[r EXCEPT ![e.a] = r[e.b].a[1]]}     \* the first element of an array
    [] e.op = "name" -> {[r EXCEPT ![e.a] = [t |-> "str", s |-> r[e.b].s]]}  \* the string member of a "named"
    [] e.op = "append" -> {[r EXCEPT ![e.a] = [t |-> "arr", a |-> Append(r[e.a].a, r[e.b])]]}

\* the same where only one result is possible
AnyOpDet(r, e) == CHOOSE x \in AnyOp(r, e) : TRUE

\* optionals: Unset or a value; moved-from ones are unspecified until stored to
OptOp(r, e) ==
  CASE e.op \in {"new", "unset"} -> {[r EXCEPT ![e.a] = Unset]}
    [] e.op \in {"newval", "set", "setval", "convert"} -> {[r EXCEPT ![e.a] = e.v]}
    [] e.op \in {"newcopy", "copy"} -> {[r EXCEPT ![e.a] = r[e.b]]}
    [] e.op \in {"newmove", "move"} -> IF e.a = e.b THEN {[r EXCEPT ![e.a] = Unknown]} ELSE {[[r EXCEPT ![e.a] = r[e.b]] EXCEPT ![e.b] = Unknown]}

\* comparisons: an unset optional comes before every value
Rank(x) == IF x.t = "unset" THEN -1 ELSE x.n
OptLess(a, b) == Rank(a) < Rank(b)
OptEq(a, b) == Rank(a) = Rank(b)

\* variants: start with the default of the first alternative (e.v)
VarOp(r, e) ==
  CASE e.op \in {"new", "newval", "set"} -> {[r EXCEPT ![e.a] = e.v]}
    [] e.op \in {"newcopy", "copy"} -> {[r EXCEPT ![e.a] = r[e.b]]}
    [] e.op \in {"newmove", "move"} -> IF e.a = e.b THEN {[r EXCEPT ![e.a] = Unknown]} ELSE {[[r EXCEPT ![e.a] = r[e.b]] EXCEPT ![e.b] = Unknown]}
=============================================================================
