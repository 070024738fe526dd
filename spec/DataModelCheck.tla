--------------------------- MODULE DataModelCheck ---------------------------
(* The data model itself: for every type of a bounded family and every value *)
(* of it, encoding and decoding returns the value; decoding any JSON value   *)
(* as any type either fails or yields a value of that type, and what it      *)
(* yields can be encoded again.                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT Big
E == [S1 |-> [base |-> "", f |-> <<[n |-> "a", t |-> [k |-> "int"]], [n |-> "b", t |-> [k |-> "opt", e |-> [k |-> "str"]]]>>],
      S2 |-> [base |-> "S1", f |-> <<[n |-> "c", t |-> [k |-> "opt", e |-> [k |-> "ref", n |-> "S1"]]], [n |-> "d", t |-> [k |-> "num"]]>>]]
D == INSTANCE DataModel WITH Env <- E

Leaf == {[k |-> "b", b |-> "true"], [k |-> "i", i |-> "1", d |-> "1"], [k |-> "d", d |-> "1"], [k |-> "d", d |-> "1.5"],
         [k |-> "s", s |-> "x"], [k |-> "n"]}
Objs(S) == {[k |-> "o", o |-> <<>>]}
  \cup {[k |-> "o", o |-> <<[n |-> m, v |-> x]>>] : m \in {"a", "b", "z"}, x \in S}
  \cup {[k |-> "o", o |-> <<[n |-> "a", v |-> x], [n |-> "b", v |-> y]>>] : x \in S, y \in S}
  \cup {[k |-> "o", o |-> <<[n |-> "a", v |-> x], [n |-> "c", v |-> y], [n |-> "d", v |-> z]>>] : x \in Leaf, y \in S, z \in Leaf}
Arrs(S) == {[k |-> "a", a |-> <<>>]} \cup {[k |-> "a", a |-> <<x>>] : x \in S} \cup {[k |-> "a", a |-> <<x, y>>] : x \in Leaf, y \in S}
J1 == Leaf \cup Objs(Leaf) \cup Arrs(Leaf)
Small == Leaf \cup {[k |-> "o", o |-> <<[n |-> "a", v |-> [k |-> "i", i |-> "1", d |-> "1"]]>>], [k |-> "a", a |-> <<[k |-> "n"]>>],
                    [k |-> "o", o |-> <<[n |-> "a", v |-> [k |-> "d", d |-> "1"]]>>]}
J2 == J1 \cup Objs(Small) \cup Arrs(IF Big THEN J1 ELSE Small)

Basic == {[k |-> x] : x \in {"bool", "int", "num", "str", "obj", "any", "null"}}
Refs == {[k |-> "ref", n |-> x] : x \in {"S1", "S2"}}
T1 == Basic \cup Refs \cup {[k |-> "arr", e |-> x] : x \in Basic \cup Refs}
     \cup {[k |-> "var", e |-> <<[k |-> "int"], [k |-> "str"]>>], [k |-> "var", e |-> <<[k |-> "bool"], [k |-> "arr", e |-> [k |-> "str"]], [k |-> "num"]>>],
           [k |-> "var", e |-> <<[k |-> "ref", n |-> "S1"], [k |-> "arr", e |-> [k |-> "any"]], [k |-> "null"]>>]}
T2 == T1 \cup {[k |-> "opt", e |-> x] : x \in T1} \cup {[k |-> "arr", e |-> x] : x \in T1}
         \cup {[k |-> "arr", e |-> [k |-> "opt", e |-> [k |-> "int"]]]}

\* one canonical encoding of a typed value
RECURSIVE AnyEnc(_), Enc(_, _)
AnyEnc(v) == CASE v.k = "i" -> [k |-> "i", i |-> v.i, d |-> v.i]
               [] v.k = "a" -> [k |-> "a", a |-> [x \in 1..Len(v.a) |-> AnyEnc(v.a[x])]]
               [] v.k = "o" -> [k |-> "o", o |-> [x \in 1..Len(v.o) |-> [n |-> v.o[x].n, v |-> AnyEnc(v.o[x].v)]]]
               [] OTHER -> v
SetFields(v) == SelectSeq(v.t, LAMBDA m : m.v.k # "u")
FieldType(n, m) == LET f == D!Fields(n) IN f[CHOOSE x \in 1..Len(f) : f[x].n = m].t
Enc(t, v) == CASE t.k = "opt" -> Enc(t.e, v)
               [] t.k = "arr" -> [k |-> "a", a |-> [x \in 1..Len(v.a) |-> IF v.a[x].k = "u" THEN [k |-> "n"] ELSE Enc(t.e, v.a[x])]]
               [] t.k = "var" -> Enc(t.e[v.x], v.y)
               [] t.k = "ref" -> LET s == SetFields(v)
                                 IN [k |-> "o", o |-> [x \in 1..Len(s) |-> [n |-> s[x].n, v |-> Enc(FieldType(t.n, s[x].n), s[x].v)]]]
               [] OTHER -> AnyEnc(v)

VARIABLES t, j
Init == t \in T2 /\ j \in J2
Next == UNCHANGED <<t, j>>
R == D!Decode(t, j)
\* the typed values are exactly the results of decoding
RoundTrip == D!IsOk(R) /\ R.k # "u" => /\ D!Encodes(t, R, Enc(t, R))
                                        /\ D!Decode(t, Enc(t, R)) = R
OptionalNeverFails == t.k = "opt" => D!IsOk(R)
AnyNeverFails == t.k = "any" => D!IsOk(R)
VariantHoldsAlternative == t.k = "var" /\ D!IsOk(R) => R.x \in 1..Len(t.e)
\* extra members never matter
ExtraIgnored == t.k = "ref" /\ j.k = "o" /\ ~D!HasMember(j, "zz") =>
                  D!Decode(t, [k |-> "o", o |-> Append(j.o, [n |-> "zz", v |-> [k |-> "n"]])]) = R
Spec == Init /\ [][Next]_<<t, j>>
=============================================================================
