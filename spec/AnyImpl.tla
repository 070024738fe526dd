-------------------------------- MODULE AnyImpl --------------------------------
(* The storage algorithm of dap::any: a value lives in the any's own buffer  *)
(* or in a heap block; assignments copy, move, or take over blocks.  Checked *)
(* here: nothing is read after it was destroyed, destroyed twice or leaked,  *)
(* and what the registers hold is what Values!AnyOp says.                    *)
(* Values: "s" fits the buffer, "b" does not, "x" (a box: object or array)   *)
(* does not and contains one any.  MaxDepth limits the nesting of boxes.     *)
(* Variant selects the algorithm: "fixed" is the code's; the others are      *)
(* wrong ones that the invariants must reject (see AnyImplBad*.cfg).         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxDepth, Variant
VARIABLES mem, reg, last
V == INSTANCE Values
vars == <<mem, reg, last>>

(* Memory: cell: the live anys; obj: the live values; blk: live heap blocks; *)
(* gone: ids freed during the current operation (not reused within it);      *)
(* err: something was used that is not alive.                                *)
Roots == {101, 102}
T == 100
Empty == [type |-> "", value |-> 0, heap |-> 0, inbuf |-> FALSE]
Ids == 1..99
Fresh(m) == CHOOSE i \in Ids : i \notin DOMAIN m.cell /\ i \notin DOMAIN m.obj /\ i \notin m.blk /\ i \notin m.gone
               /\ \A j \in 1..(i - 1) : j \in DOMAIN m.cell \/ j \in DOMAIN m.obj \/ j \in m.blk \/ j \in m.gone
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Err(m) == [m EXCEPT !.err = TRUE]
NewCell(m, c) == [m EXCEPT !.cell = (c :> Empty) @@ m.cell]

\* alloc(): in the buffer or a new block; the result has .value = 0 until constructed
Alloc(m, c, ty) ==
  IF ty = "s" THEN [m EXCEPT !.cell[c].inbuf = TRUE, !.cell[c].type = ty]
  ELSE LET b == Fresh(m) IN [m EXCEPT !.blk = @ \cup {b}, !.cell[c].heap = b, !.cell[c].inbuf = FALSE, !.cell[c].type = ty]

RECURSIVE CopyInto(_, _, _), CopyCell(_, _, _), Destroy(_, _), Reset(_, _)
\* copy-construct object o as the value of cell c (allocated)
CopyInto(m, c, o) ==
  IF m.err \/ o \notin DOMAIN m.obj THEN Err(m)
  ELSE LET n == Fresh(m)
           m1 == [m EXCEPT !.obj = (n :> [ty |-> m.obj[o].ty, v |-> m.obj[o].v, child |-> 0]) @@ m.obj, !.cell[c].value = n]
       IN IF m.obj[o].ty # "x" THEN m1
          ELSE LET k == Fresh(m1) IN CopyCell(NewCell([m1 EXCEPT !.obj[n].child = k], k), k, m.obj[o].child)
\* any(const any&) into the new, empty cell c
CopyCell(m, c, d) ==
  IF m.err \/ d \notin DOMAIN m.cell THEN Err(m)
  ELSE IF m.cell[d].value = 0 THEN m
  ELSE CopyInto(Alloc(m, c, m.cell[d].type), c, m.cell[d].value)
Destroy(m, o) ==
  IF m.err \/ o \notin DOMAIN m.obj THEN Err(m)
  ELSE LET k == m.obj[o].child
           m1 == IF k = 0 THEN m ELSE LET m2 == Reset(m, k) IN [m2 EXCEPT !.cell = Drop(@, k), !.gone = @ \cup {k}]
       IN [m1 EXCEPT !.obj = Drop(@, o), !.gone = @ \cup {o}]
Reset(m, c) ==
  IF m.err \/ c \notin DOMAIN m.cell THEN Err(m)
  ELSE IF m.cell[c].value = 0 THEN [m EXCEPT !.cell[c] = [Empty EXCEPT !.heap = m.cell[c].heap]]
  ELSE LET m1 == Destroy(m, m.cell[c].value) IN
       IF m1.err THEN m1
       ELSE IF m.cell[c].heap # 0 /\ m.cell[c].heap \notin m1.blk THEN Err(m1)
       ELSE [m1 EXCEPT !.cell[c] = Empty, !.blk = @ \ {m.cell[c].heap}, !.gone = @ \cup ({m.cell[c].heap} \ {0})]
Take(m, c, d) ==
  IF m.err \/ d \notin DOMAIN m.cell THEN Err(m)
  ELSE IF m.cell[d].value = 0 THEN [m EXCEPT !.cell[c] = Empty]
  ELSE IF m.cell[d].inbuf
       THEN LET m1 == CopyInto(Alloc(m, c, m.cell[d].type), c, m.cell[d].value)
            IN IF Variant = "noreset" THEN (IF m1.err THEN m1 ELSE [m1 EXCEPT !.cell[d] = Empty]) ELSE Reset(m1, d)
  ELSE [m EXCEPT !.cell[c] = [m.cell[d] EXCEPT !.heap = IF Variant = "noheap" THEN 0 ELSE @], !.cell[d] = Empty]
DropCell(m, c) == IF m.err THEN m ELSE LET m1 == Reset(m, c) IN IF m1.err THEN m1 ELSE [m1 EXCEPT !.cell = Drop(@, c), !.gone = @ \cup {c}]
AssignCopy(m, c, d) ==
  IF Variant = "inplace" THEN LET m1 == Reset(m, c) IN CopyCell(m1, c, d)
  ELSE LET m1 == CopyCell(NewCell(m, T), T, d) IN DropCell(Take(Reset(m1, c), c, T), T)
AssignMove(m, c, d) ==
  IF Variant = "inplace" THEN LET m1 == Reset(m, c) IN Take(m1, c, d)
  ELSE LET m1 == Take(NewCell(m, T), T, d) IN DropCell(Take(Reset(m1, c), c, T), T)
\* assignment of the value object o, of the type the cell holds already or another one
AssignObj(m, c, o) ==
  IF m.err \/ o \notin DOMAIN m.obj THEN Err(m)
  ELSE IF m.cell[c].value # 0 /\ m.cell[c].type = m.obj[o].ty /\ Variant # "inplace"
  THEN \* *value = T(val): assignment through a copy, the storage stays
       LET m1 == CopyInto(NewCell(m, T), T, o)
           n == m1.cell[T].value
           old == m1.cell[c].value
           m2 == Destroy(m1, old)
       IN IF m2.err THEN m2 ELSE [m2 EXCEPT !.cell = Drop([m2.cell EXCEPT ![c].value = n], T)]
  ELSE IF Variant = "inplace" THEN LET m1 == Reset(m, c) IN IF m1.err THEN m1 ELSE CopyInto(Alloc(m1, c, m.obj[o].ty), c, o)
  ELSE LET m1 == CopyInto(Alloc(NewCell(m, T), T, m.obj[o].ty), T, o) IN DropCell(Take(Reset(m1, c), c, T), T)

\* what a cell holds, as a value of Values
RECURSIVE Abs(_, _), Depth(_, _)
Abs(m, c) == IF m.cell[c].value = 0 THEN V!Null
             ELSE LET o == m.obj[m.cell[c].value] IN
                  IF o.ty = "x" THEN [t |-> "arr", a |-> <<Abs(m, o.child)>>] ELSE [t |-> o.ty, s |-> o.v]
Depth(m, c) == IF m.cell[c].value = 0 \/ m.obj[m.cell[c].value].ty # "x" THEN 0 ELSE 1 + Depth(m, m.obj[m.cell[c].value].child)

Init == /\ mem = [cell |-> [c \in Roots |-> Empty], obj |-> <<>>, blk |-> {}, gone |-> {}, err |-> FALSE]
        /\ reg = [c \in Roots |-> V!Null] /\ last = "init"
\* of the allowed results the one that happened, if there is one (Refines fails otherwise)
Do(m, r, what) ==
  /\ mem' = [m EXCEPT !.gone = {}] /\ last' = what
  /\ reg' \in LET g == {x \in r : ~m.err /\ \A c \in Roots : V!Agrees(x[c], Abs(m, c))} IN IF g # {} THEN g ELSE r
Is(c, ty) == mem.cell[c].value # 0 /\ mem.cell[c].type = ty
Child(c) == mem.obj[mem.cell[c].value].child
Ev(op, a, b) == [op |-> op, a |-> a, b |-> b]
Next ==
  /\ ~mem.err
  /\ \E a \in Roots, b \in Roots :
       \/ a = b /\ Do(Reset(mem, a), V!AnyOp(reg, Ev("reset", a, a)), "reset")
       \/ Do(AssignCopy(mem, a, b), V!AnyOp(reg, Ev("copy", a, b)), "copy")
       \/ Do(AssignMove(mem, a, b), V!AnyOp(reg, Ev("move", a, b)), "move")
       \* a plain value from outside: constructed, assigned, destroyed
       \/ \E ty \in {"s", "b"}, v \in {"1", "2"} :
            /\ a = b
            /\ LET o == Fresh(mem)
                   m1 == AssignObj([mem EXCEPT !.obj = (o :> [ty |-> ty, v |-> v, child |-> 0]) @@ @], a, o)
               IN Do(IF m1.err THEN m1 ELSE Destroy(m1, o), V!AnyOp(reg, [op |-> "set", a |-> a, v |-> [t |-> ty, s |-> v]]), "set")
       \* a box around a copy of b
       \/ /\ Depth(mem, b) < MaxDepth
          /\ LET o == Fresh(mem)
                 m0 == [mem EXCEPT !.obj = (o :> [ty |-> "x", v |-> "", child |-> 0]) @@ @]
                 k == Fresh(m0)
                 m1 == CopyCell(NewCell([m0 EXCEPT !.obj[o].child = k], k), k, b)
                 m2 == AssignObj(m1, a, o)
             IN Do(IF m2.err THEN m2 ELSE Destroy(m2, o), V!AnyOp(reg, [op |-> "set", a |-> a, v |-> [t |-> "arr", a |-> <<reg[b]>>]]), "box")
       \* the any in the box, and the value in it, assigned (possibly to what contains it)
       \/ Is(b, "x") /\ Do(AssignCopy(mem, a, Child(b)), V!AnyOp(reg, Ev("elem", a, b)), "elem")
       \/ /\ Is(b, "x") /\ mem.cell[Child(b)].value # 0
          /\ Do(AssignObj(mem, a, mem.cell[Child(b)].value), V!AnyOp(reg, Ev("elem", a, b)), "elemval")
       \/ /\ Is(b, "x")
          /\ Do(AssignMove(mem, a, Child(b)),
                IF a = b THEN V!AnyOp(reg, Ev("elem", a, b))
                ELSE {[V!AnyOpDet(reg, Ev("elem", a, b)) EXCEPT ![b] = [t |-> "arr", a |-> <<V!Null>>]]}, "elemmove")
       \* the other way round: the box's any gets a (which may be the box)
       \/ /\ Is(b, "x") /\ Depth(mem, a) < MaxDepth
          /\ Do(AssignCopy(mem, Child(b), a), {[reg EXCEPT ![b] = [t |-> "arr", a |-> <<reg[a]>>]]}, "into")
Spec == Init /\ [][Next]_vars

\* nothing dead is used
Safe == ~mem.err
\* the registers hold what they should
Refines == mem.err \/ \A c \in Roots : V!Agrees(reg[c], Abs(mem, c))
\* every live any, value and block is reachable: nothing has leaked
RECURSIVE ReachObj(_, _), ReachCell(_, _)
ReachCell(m, c) == {<<"c", c>>} \cup (IF m.cell[c].heap # 0 THEN {<<"b", m.cell[c].heap>>} ELSE {}) \cup (IF m.cell[c].value = 0 THEN {} ELSE ReachObj(m, m.cell[c].value))
ReachObj(m, o) == {<<"o", o>>} \cup (IF m.obj[o].child = 0 THEN {} ELSE ReachCell(m, m.obj[o].child))
NoLeak == mem.err \/
  LET r == UNION {ReachCell(mem, c) : c \in Roots}
  IN /\ \A o \in DOMAIN mem.obj : <<"o", o>> \in r
     /\ \A b \in mem.blk : <<"b", b>> \in r
     /\ \A c \in DOMAIN mem.cell : <<"c", c>> \in r
\* a block belongs to the cell that has its value in it
OneHome == mem.err \/ \A c \in DOMAIN mem.cell :
  mem.cell[c].value # 0 => (mem.cell[c].inbuf <=> mem.cell[c].type = "s") /\ (mem.cell[c].heap # 0 <=> ~mem.cell[c].inbuf)
\* no two anys share a value or a block
NoSharing == \A c, d \in DOMAIN mem.cell : c # d =>
  /\ mem.cell[c].value = 0 \/ mem.cell[c].value # mem.cell[d].value
  /\ mem.cell[c].heap = 0 \/ mem.cell[c].heap # mem.cell[d].heap
(* Under these invariants memory is determined by the registers up to the    *)
(* choice of addresses, so that states are told apart by their registers and *)
(* by whether the invariants hold.                                           *)
ModelView == <<reg, Safe, Refines, NoLeak, OneHome, NoSharing>>
=============================================================================
