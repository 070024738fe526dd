------------------------------ MODULE ValuesTrace ------------------------------
(* Recorded sequences of operations on real any, optional and variant        *)
(* objects.  Every operation event carries what all registers then report.   *)
EXTENDS TraceBatch, Integers, FiniteSets
VARIABLES r, kind
V == INSTANCE Values
Regs(n) == 0..(n - 1)
Seen(s, e) == \A i \in DOMAIN s : V!Agrees(s[i], e.obs[i + 1])
\* tracked objects alive: exactly those in the registers (only when all of them are specified)
RECURSIVE Sum(_, _)
Sum(s, i) == IF i = Cardinality(DOMAIN s) THEN 0 ELSE V!Live(s[i]) + Sum(s, i + 1)
LiveOk(s, e) == e.live = -1 \/ e.live = Sum(s, 0)

CmpOk(e) ==
  LET a == r[e.a]
      b == r[e.b]
  IN a.t = "?" \/ b.t = "?" \/
     /\ e.eq = V!OptEq(a, b) /\ e.ne = ~V!OptEq(a, b)
     /\ e.lt = V!OptLess(a, b) /\ e.le = ~V!OptLess(b, a)
     /\ e.gt = V!OptLess(b, a) /\ e.ge = ~V!OptLess(a, b)
Default(e) == LET a == r[e.a] IN a.t = "?" \/ e.got = IF a.t = "unset" THEN e.def ELSE a

TInit == BatchInit /\ r = <<>> /\ kind = ""
TNext ==
  /\ HasE
  /\ \/ /\ E.e = "begin" /\ kind' = E.kind
        /\ r' = [i \in Regs(E.n) |-> E.v]
        /\ Seen(r', E) /\ LiveOk(r', E)
     \/ /\ E.e = "op"
        /\ r' \in (CASE kind = "any" -> V!AnyOp(r, E) [] kind = "opt" -> V!OptOp(r, E) [] OTHER -> V!VarOp(r, E))
        /\ Seen(r', E) /\ LiveOk(r', E) /\ kind' = kind
     \/ E.e = "cmp" /\ CmpOk(E) /\ UNCHANGED <<r, kind>>
     \/ E.e = "default" /\ Default(E) /\ UNCHANGED <<r, kind>>
     \* all registers destroyed: nothing is left, nothing was destroyed twice
     \/ E.e = "end" /\ E.live = 0 /\ E.blocks = 0 /\ E.bad = 0 /\ r' = <<>> /\ kind' = ""
  /\ Consume
TSpec == TInit /\ [][TNext]_<<tid, l, r, kind>>
=============================================================================
