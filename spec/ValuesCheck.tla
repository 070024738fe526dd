------------------------------ MODULE ValuesCheck ------------------------------
(* optional as it is implemented (a value and a flag) and variant (an any    *)
(* that always holds one of the alternatives), against Values.               *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES spec, impl, vspec, vimpl
V == INSTANCE Values
Regs == {0, 1, 2}
Vals == 0..2          \* 0: the default value
Val(n) == [t |-> "val", n |-> n]
Alts == {[t |-> "int", s |-> "0"], [t |-> "int", s |-> "1"], [t |-> "str", s |-> "a"], [t |-> "bool", s |-> "1"]}
First == [t |-> "int", s |-> "0"]
vars == <<spec, impl, vspec, vimpl>>
Init == /\ spec = [i \in Regs |-> V!Unset] /\ impl = [i \in Regs |-> [val |-> 0, set |-> FALSE]]
        /\ vspec = [i \in Regs |-> First] /\ vimpl = vspec
Opt == \E a \in Regs, b \in Regs, n \in Vals : \E op \in {"new", "newval", "set", "setval", "copy", "move", "unset"} :
  /\ op = "move" => a # b
  /\ op = "setval" => spec[a].t = "val"       \* value() = n needs a value
  /\ spec' \in V!OptOp(spec, [op |-> op, a |-> a, b |-> b, v |-> Val(n)])
  /\ impl' = CASE op \in {"newval", "set", "setval"} -> [impl EXCEPT ![a] = [val |-> n, set |-> TRUE]]
               [] op = "copy" -> [impl EXCEPT ![a] = impl[b]]
               [] op = "move" -> [[impl EXCEPT ![a] = impl[b]] EXCEPT ![b] = [val |-> 0, set |-> @.set]]
               [] OTHER -> [impl EXCEPT ![a] = [val |-> 0, set |-> FALSE]]
  /\ UNCHANGED <<vspec, vimpl>>
Var == \E a \in Regs, b \in Regs, x \in Alts : \E op \in {"new", "set", "copy", "move"} :
  /\ op = "move" => a # b
  /\ vspec' \in V!VarOp(vspec, [op |-> op, a |-> a, b |-> b, v |-> IF op = "new" THEN First ELSE x])
  /\ vimpl' = CASE op = "new" -> [vimpl EXCEPT ![a] = First]
                [] op = "set" -> [vimpl EXCEPT ![a] = x]
                [] op = "copy" -> [vimpl EXCEPT ![a] = vimpl[b]]
                [] OTHER -> [[vimpl EXCEPT ![a] = vimpl[b]] EXCEPT ![b] = V!Null]
  /\ UNCHANGED <<spec, impl>>
Next == Opt \/ Var
Spec == Init /\ [][Next]_vars
Abs(x) == IF x.set THEN Val(x.val) ELSE V!Unset
Refines == \A i \in Regs : V!Agrees(spec[i], Abs(impl[i])) /\ V!Agrees(vspec[i], vimpl[i])
\* the comparisons as they are coded, against the order of the specification
Less(a, b) == IF a.set /\ b.set THEN a.val < b.val ELSE ~a.set /\ b.set
Eq(a, b) == IF a.set /\ b.set THEN a.val = b.val ELSE a.set = b.set
Ordered == \A i, j \in Regs : spec[i].t # "?" /\ spec[j].t # "?" =>
  /\ V!OptLess(spec[i], spec[j]) = Less(impl[i], impl[j])
  /\ V!OptEq(spec[i], spec[j]) = Eq(impl[i], impl[j])
\* it is a total order
Total == \A a, b, c \in {V!Unset} \cup {Val(n) : n \in Vals} :
  /\ (V!OptLess(a, b) \/ V!OptLess(b, a) \/ V!OptEq(a, b)) /\ ~(V!OptLess(a, b) /\ V!OptLess(b, a))
  /\ V!OptLess(a, b) /\ V!OptLess(b, c) => V!OptLess(a, c)
\* a variant holds one of its alternatives unless it was moved from
VarHolds == \A i \in Regs : vspec[i].t # "?" => vimpl[i] \in Alts
=============================================================================
