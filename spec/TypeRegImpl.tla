------------------------------ MODULE TypeRegImpl ------------------------------
(* The algorithm: a reference count, one entry per dynamically created type  *)
(* information in a vector owned by the registry, function-local statics     *)
(* (guards) that remember each type's information.  Workers run programs of  *)
(* "i" initialize, "t" terminate, anything else: look up that type; the main       *)
(* thread waits for them (or not), ends the statics, goes on using types     *)
(* while it holds a reference, and terminates.                               *)
EXTENDS TypeReg
CONSTANTS Progs,      \* sequence of the workers' programs
          MainRefs,   \* references taken by the main thread before the workers start
          WRefs,      \* references taken for the workers before they start
          WaitFirst,  \* the main thread waits for the workers before it ends the statics
          Types,      \* the types
          Locked,     \* additions to the vector are under a lock
          Split,      \* the count is decremented and tested in two steps
          Owned       \* the informations belong to the registry, not to statics
P_A == << <<"i", "1", "2", "t">>, <<"2", "1">> >>
P_B == << <<"1", "t">>, <<"2", "t">> >>
P_Big == << <<"i", "1", "2", "3", "t">>, <<"i", "3", "1", "t">>, <<"2", "3", "1">> >>
P_Big2 == << <<"1", "3", "t">>, <<"2", "1", "t">>, <<"t">> >>
W == 1..Len(Progs)
VARIABLES m, pc, ip, ref, vec, len, lock, guard, ptr, next, reg, tmp
vars == <<m, pc, ip, ref, vec, len, lock, guard, ptr, next, reg, tmp>>

Init == /\ m = [Start EXCEPT !.held = 1 + MainRefs + WRefs]
        /\ pc = [w \in {0} \cup W |-> "go"] /\ ip = [w \in {0} \cup W |-> 1]
        /\ ref = 1 + MainRefs + WRefs
        /\ vec = [i \in 1..Cardinality(Types) |-> 0] /\ len = 0 /\ lock = 0
        /\ guard = [k \in Types |-> "no"] /\ ptr = [k \in Types |-> 0]
        /\ next = 1 /\ reg = "on" /\ tmp = [w \in {0} \cup W |-> 0]

\* main: wait, leave the statics, look a type up again, drop its references
MainProg == (IF WaitFirst THEN <<"wait", "x">> ELSE <<"x">>) \o (IF MainRefs > 0 THEN <<"1">> \o [i \in 1..MainRefs |-> "t"] ELSE <<>>) \o <<"end">>
Prog(w) == IF w = 0 THEN MainProg ELSE Progs[w]
Op(w) == Prog(w)[ip[w]]
Has(w) == ip[w] <= Len(Prog(w))
Saw(e) == m' = Step(m, e)
Done(w) == pc' = [pc EXCEPT ![w] = "go"] /\ ip' = [ip EXCEPT ![w] = @ + 1]
To(w, p) == pc' = [pc EXCEPT ![w] = p] /\ UNCHANGED ip

DoInit(w) == /\ pc[w] = "go" /\ Has(w) /\ Op(w) = "i"
             /\ ref' = ref + 1 /\ Saw([e |-> "InitRet"]) /\ Done(w)
             /\ UNCHANGED <<vec, len, lock, guard, ptr, next, reg, tmp>>
Wait(w) == /\ pc[w] = "go" /\ Has(w) /\ Op(w) = "wait" /\ \A v \in W : ~Has(v)
           /\ Done(w) /\ UNCHANGED <<m, ref, vec, len, lock, guard, ptr, next, reg, tmp>>
TypeHit(w) == /\ pc[w] = "go" /\ Has(w) /\ Op(w) \in Types /\ guard[Op(w)] = "done"
              /\ Saw([e |-> "Type", k |-> Op(w), p |-> ptr[Op(w)], good |-> IF ptr[Op(w)] \in m.live THEN 1 ELSE 0]) /\ Done(w)
              /\ UNCHANGED <<ref, vec, len, lock, guard, ptr, next, reg, tmp>>
TypeMiss(w) == /\ pc[w] = "go" /\ Has(w) /\ Op(w) \in Types /\ guard[Op(w)] = "no"
               /\ guard' = [guard EXCEPT ![Op(w)] = "busy"] /\ To(w, "make")
               /\ UNCHANGED <<m, ref, vec, len, lock, ptr, next, reg, tmp>>
Make(w) == /\ pc[w] = "make"
           /\ ptr' = [ptr EXCEPT ![Op(w)] = next] /\ next' = next + 1
           /\ Saw([e |-> "Make", i |-> next])
           /\ To(w, IF ~Owned THEN "made" ELSE IF Locked THEN "lock" ELSE "push")
           /\ UNCHANGED <<ref, vec, len, lock, guard, reg, tmp>>
Lock(w) == pc[w] = "lock" /\ lock = 0 /\ lock' = w + 1 /\ To(w, "push") /\ UNCHANGED <<m, ref, vec, len, guard, ptr, next, reg, tmp>>
\* vector: read the length, write the slot, write the length
Push(w) == pc[w] = "push" /\ tmp' = [tmp EXCEPT ![w] = len] /\ To(w, "slot") /\ UNCHANGED <<m, ref, vec, len, lock, guard, ptr, next, reg>>
Slot(w) == pc[w] = "slot" /\ vec' = [vec EXCEPT ![tmp[w] + 1] = ptr[Op(w)]] /\ To(w, "len") /\ UNCHANGED <<m, ref, len, lock, guard, ptr, next, reg, tmp>>
SetLen(w) == pc[w] = "len" /\ len' = tmp[w] + 1 /\ To(w, IF Locked THEN "unlock" ELSE "made") /\ UNCHANGED <<m, ref, vec, lock, guard, ptr, next, reg, tmp>>
Unlock(w) == pc[w] = "unlock" /\ lock' = 0 /\ To(w, "made") /\ UNCHANGED <<m, ref, vec, len, guard, ptr, next, reg, tmp>>
Made(w) == /\ pc[w] = "made" /\ guard' = [guard EXCEPT ![Op(w)] = "done"] /\ To(w, "go")
           /\ UNCHANGED <<m, ref, vec, len, lock, ptr, next, reg, tmp>>
\* terminate(), and the destruction of the statics (which is the same, after
\* the informations that belong to statics)
Term(w) == /\ pc[w] = "go" /\ Has(w) /\ Op(w) \in {"t", "x"}
           /\ Saw([e |-> IF Op(w) = "t" THEN "Term" ELSE "Exit"])
           /\ To(w, IF Op(w) = "x" /\ ~Owned THEN "statics" ELSE "dec")
           /\ UNCHANGED <<ref, vec, len, lock, guard, ptr, next, reg, tmp>>
Statics(w) == /\ pc[w] = "statics"
              /\ IF m.live # {} THEN Saw([e |-> "Destroy", i |-> CHOOSE i \in m.live : TRUE]) /\ UNCHANGED <<pc, ip>>
                                ELSE To(w, "dec") /\ UNCHANGED m
              /\ UNCHANGED <<ref, vec, len, lock, guard, ptr, next, reg, tmp>>
Dec(w) == /\ pc[w] = "dec" /\ ref' = ref - 1
          /\ IF Split THEN To(w, "test") /\ UNCHANGED tmp
             ELSE tmp' = [tmp EXCEPT ![w] = len] /\ IF ref' = 0 THEN To(w, "free") ELSE Done(w)
          /\ UNCHANGED <<m, vec, len, lock, guard, ptr, next, reg>>
Test(w) == /\ pc[w] = "test" /\ tmp' = [tmp EXCEPT ![w] = len]
           /\ IF ref = 0 THEN To(w, "free") ELSE Done(w)
           /\ UNCHANGED <<m, ref, vec, len, lock, guard, ptr, next, reg>>
Free(w) == /\ pc[w] = "free"
           /\ IF tmp[w] > 0 THEN /\ Saw([e |-> "Destroy", i |-> vec[tmp[w]]])
                                 /\ tmp' = [tmp EXCEPT ![w] = @ - 1] /\ UNCHANGED <<pc, ip>>
              ELSE Done(w) /\ UNCHANGED <<m, tmp>>
           /\ UNCHANGED <<ref, vec, len, lock, guard, ptr, next, reg>>
End(w) == /\ pc[w] = "go" /\ Has(w) /\ Op(w) = "end" /\ \A v \in W : ~Has(v)
          /\ Saw([e |-> "End", leak |-> 0]) /\ Done(w)
          /\ UNCHANGED <<ref, vec, len, lock, guard, ptr, next, reg, tmp>>
Next == \E w \in {0} \cup W : \/ DoInit(w) \/ Wait(w) \/ TypeHit(w) \/ TypeMiss(w) \/ Make(w) \/ Lock(w) \/ Push(w) \/ Slot(w)
                               \/ SetLen(w) \/ Unlock(w) \/ Made(w) \/ Term(w) \/ Statics(w) \/ Dec(w) \/ Test(w) \/ Free(w) \/ End(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NothingBad == m.bad = {}
AllOver == \A w \in {0} \cup W : ~Has(w)
NoStuck == ENABLED Next \/ AllOver
Ends == <>AllOver
=============================================================================
