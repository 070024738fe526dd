-------------------------------- MODULE TypeReg --------------------------------
(* The library's type information and its life: what programs see of         *)
(* TypeOf<T>::type(), TypeInfo::create(), initialize(), terminate() and the  *)
(* end of the process (destruction of static objects).                       *)
(* A monitor: Step(m, e) for the events                                      *)
(*   InitRet, Term, TermRet, Exit, ExitRet: initialize() has returned;       *)
(*     terminate() / the destruction of statics begins, has returned;        *)
(*   Type k p good: type k was looked up, got the information at address p   *)
(*     (numbered in order of appearance); good: its name and size are right; *)
(*   Use k good: a value was created, copied, encoded, decoded, destroyed    *)
(*     with the information of type k;                                       *)
(*   Make i / Destroy i: a type information i was created with create(), is  *)
(*     being destroyed;                                                      *)
(*   End leak: everything is over; blocks of memory never given back.        *)
EXTENDS Naturals, Sequences, FiniteSets
Known == {"InitRet", "Term", "TermRet", "Exit", "ExitRet", "Type", "Use", "Make", "Destroy", "End"}

\* held: references that certainly exist; the statics are one
Start == [held |-> 1, at |-> {}, live |-> {}, dead |-> {}, bad |-> {}]

Step(m, e) ==
  LET flag(c, why) == IF c THEN {why} ELSE {}
  IN CASE e.e = "InitRet" -> [m EXCEPT !.held = @ + 1]
       [] e.e \in {"Term", "Exit"} -> [m EXCEPT !.held = @ - 1]
       [] e.e \in {"TermRet", "ExitRet"} ->
            \* the last reference is gone: nothing may be left
            m
       [] e.e = "Type" ->
            [m EXCEPT !.at = @ \cup {<<e.k, e.p>>},
                      !.bad = @ \cup flag(e.good # 1, "wrong information")
                                \cup flag(\E x \in m.at : x[1] = e.k /\ x[2] # e.p, "two informations for one type")
                                \cup flag(\E x \in m.at : x[1] # e.k /\ x[2] = e.p, "one information for two types")]
       [] e.e = "Use" -> [m EXCEPT !.bad = @ \cup flag(e.good # 1, "unusable")]
       [] e.e = "Make" -> [m EXCEPT !.live = @ \cup {e.i},
                                    !.bad = @ \cup flag(e.i \in m.live \cup m.dead, "made twice")]
       [] e.e = "Destroy" ->
            [m EXCEPT !.live = @ \ {e.i}, !.dead = @ \cup {e.i},
                      !.bad = @ \cup flag(m.held > 0, "destroyed while in use")
                                \cup flag(e.i \notin m.live, "destroyed twice")]
       [] e.e = "End" ->
            [m EXCEPT !.bad = @ \cup flag(m.held = 0 /\ m.live # {}, "never destroyed")
                                \cup flag(m.held = 0 /\ e.leak # 0, "memory never given back")]
=============================================================================
