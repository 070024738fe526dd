-------------------------------- MODULE DataModel --------------------------------
(* The typed data model: what a JSON value means for a declared type and how *)
(* a typed value is written as JSON.                                         *)
(*                                                                           *)
(* Types (records): [k |-> "bool" | "int" | "num" | "str" | "obj" | "any" |  *)
(*   "null"], [k |-> "arr", e], [k |-> "opt", e], [k |-> "var", e (sequence)],*)
(*   [k |-> "ref", n] with Env[n] = [base, f]: f a sequence of               *)
(*   [n |-> member name on the wire, t |-> type], base "" or another name.   *)
(* JSON values: [k "b", b] [k "i", i, d] [k "d", d] [k "s", s] [k "n"]       *)
(*   [k "a", a] [k "o", o]; o is a sequence of [n, v] sorted by name, i and d *)
(*   are decimal texts ("i" only if the literal is an integer that fits 64   *)
(*   bits; d is the text of the nearest double).                             *)
(* Typed values: as JSON ("i" without d), and [k "u"] for an unset optional, *)
(*   [k "t", t] for a structure (t: sequence of [n, v] in declaration order, *)
(*   base first), [k "v", x, y] for a variant holding y of alternative x.    *)
EXTENDS Naturals, Sequences
CONSTANT Env

Fail == [k |-> "fail"]
IsOk(r) == r.k # "fail"

RECURSIVE Fields(_)
Fields(n) == IF Env[n].base = "" THEN Env[n].f ELSE Fields(Env[n].base) \o Env[n].f

\* what an any makes of a JSON value
RECURSIVE Natural(_)
Natural(j) ==
  CASE j.k = "i" -> [k |-> "i", i |-> j.i]
    [] j.k = "a" -> [k |-> "a", a |-> [x \in 1..Len(j.a) |-> Natural(j.a[x])]]
    [] j.k = "o" -> [k |-> "o", o |-> [x \in 1..Len(j.o) |-> [n |-> j.o[x].n, v |-> Natural(j.o[x].v)]]]
    [] OTHER -> j

\* the declared type of an any's content
NaturalType(j) == CASE j.k = "b" -> "bool" [] j.k = "i" -> "int" [] j.k = "d" -> "num" [] j.k = "s" -> "str"
                    [] j.k = "o" -> "obj" [] j.k = "n" -> "null" [] OTHER -> "array<any>"
IsNatural(t, j) == t.k = NaturalType(j) \/ (j.k = "a" /\ t.k = "arr" /\ t.e.k = "any")

HasMember(j, n) == \E x \in 1..Len(j.o) : j.o[x].n = n
Member(j, n) == j.o[CHOOSE x \in 1..Len(j.o) : j.o[x].n = n].v
Missing == [k |-> "missing"]

(* Decode(t, j): the typed value, or Fail.  j may be Missing.                *)
RECURSIVE Decode(_, _)
Decode(t, j) ==
  CASE t.k = "opt" -> LET r == Decode(t.e, j) IN IF IsOk(r) THEN r ELSE [k |-> "u"]
    [] t.k # "opt" /\ j.k = "missing" -> Fail
    [] t.k = "bool" -> IF j.k = "b" THEN j ELSE Fail
    [] t.k = "int" -> IF j.k = "i" THEN [k |-> "i", i |-> j.i] ELSE Fail
    [] t.k = "num" -> IF j.k \in {"i", "d"} THEN [k |-> "d", d |-> j.d] ELSE Fail
    [] t.k = "str" -> IF j.k = "s" THEN j ELSE Fail
    [] t.k = "null" -> IF j.k = "n" THEN j ELSE Fail
    [] t.k = "obj" -> IF j.k = "o" THEN Natural(j) ELSE Fail
    [] t.k = "any" -> Natural(j)
    [] t.k = "arr" ->
         IF j.k # "a" THEN Fail
         ELSE LET r == [x \in 1..Len(j.a) |-> Decode(t.e, j.a[x])]
              IN IF \E x \in 1..Len(r) : ~IsOk(r[x]) THEN Fail ELSE [k |-> "a", a |-> r]
    [] t.k = "ref" ->
         IF j.k # "o" THEN Fail
         ELSE LET f == Fields(t.n)
                  r == [x \in 1..Len(f) |-> Decode(f[x].t, IF HasMember(j, f[x].n) THEN Member(j, f[x].n) ELSE Missing)]
              IN IF \E x \in 1..Len(r) : ~IsOk(r[x]) THEN Fail
                 ELSE [k |-> "t", t |-> [x \in 1..Len(f) |-> [n |-> f[x].n, v |-> r[x]]]]
    [] t.k = "var" ->
         \* the alternative that an any would choose, else the first that fits
         LET nat == {x \in 1..Len(t.e) : IsNatural(t.e[x], j)}
             fit == {x \in 1..Len(t.e) : IsOk(Decode(t.e[x], j))}
             S == IF nat # {} THEN nat ELSE fit
         IN IF S = {} THEN Fail
            ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z
                 IN [k |-> "v", x |-> x, y |-> Decode(t.e[x], j)]

(* Encodes(t, v, j): j is a faithful encoding of the typed value v of type t.*)
\* a number may be written as an integer literal where the type is declared
RECURSIVE AnyEncodes(_, _), Encodes(_, _, _)
AnyEncodes(v, j) ==
  CASE v.k = "i" -> j.k = "i" /\ j.i = v.i
    [] v.k = "d" -> j.k = "d" /\ j.d = v.d
    [] v.k = "a" -> j.k = "a" /\ Len(j.a) = Len(v.a) /\ \A x \in 1..Len(v.a) : AnyEncodes(v.a[x], j.a[x])
    [] v.k = "o" -> /\ j.k = "o" /\ Len(j.o) = Len(v.o)
                    /\ \A x \in 1..Len(v.o) : v.o[x].n = j.o[x].n /\ AnyEncodes(v.o[x].v, j.o[x].v)
    [] OTHER -> j = v
Encodes(t, v, j) ==
  CASE t.k = "opt" -> v.k # "u" /\ Encodes(t.e, v, j)
    [] t.k = "num" -> j.k \in {"i", "d"} /\ j.d = v.d
    [] t.k \in {"bool", "int", "str", "null", "obj", "any"} -> AnyEncodes(v, j)
    [] t.k = "arr" -> /\ j.k = "a" /\ Len(j.a) = Len(v.a)
                      /\ \A x \in 1..Len(v.a) : IF v.a[x].k = "u" THEN j.a[x].k = "n" ELSE Encodes(t.e, v.a[x], j.a[x])
    [] t.k = "var" -> IF t.e[v.x].k = "num" THEN j.k = "d" /\ j.d = v.y.d ELSE Encodes(t.e[v.x], v.y, j)
    [] t.k = "ref" ->
         LET f == Fields(t.n)
             set == {x \in 1..Len(f) : v.t[x].v.k # "u"}
         IN /\ j.k = "o" /\ Len(v.t) = Len(f)
            \* exactly the set fields are members, each exactly once
            /\ {j.o[x].n : x \in 1..Len(j.o)} = {f[x].n : x \in set}
            /\ \A x, y \in 1..Len(j.o) : x # y => j.o[x].n # j.o[y].n
            /\ \A x \in set : Encodes(f[x].t, v.t[x].v, Member(j, f[x].n))
=============================================================================
