------------------------------- MODULE SPart -------------------------------
(* Reading parts out of a value.  Every reader looks through wrappers (tuples *)
(* of one element), gives exactly the part it is asked for, or stops the      *)
(* program when the value has no such part.                                   *)
EXTENDS SBytes
Got(x) == [k |-> "ok", v |-> x]
Stop == [k |-> "panic"]
RECURSIVE Skip(_)
Skip(v) == IF v.v = "tuple" /\ Len(v.f) = 1 THEN Skip(v.f[1]) ELSE v

\* equality of values: fields of structures in any order, everything else to the letter
RECURSIVE VEq(_, _)
VEq(a, b) ==
    /\ a.v = b.v
    /\ CASE a.v = "unit" -> TRUE
         [] a.v = "num" -> a.k = b.k /\ a.b = b.b
         [] a.v \in {"str", "bytes"} -> a.b = b.b
         [] a.v = "enum" -> a.t = b.t
         [] a.v = "union" -> a.t = b.t /\ VEq(a.x, b.x)
         [] a.v = "struct" -> /\ Len(a.f) = Len(b.f)
                              /\ \A i \in DOMAIN a.f : \E j \in DOMAIN b.f : a.f[i].n = b.f[j].n /\ VEq(a.f[i].x, b.f[j].x)
         [] a.v = "map" -> Len(a.f) = Len(b.f) /\ \A i \in DOMAIN a.f : VEq(a.f[i].k, b.f[i].k) /\ VEq(a.f[i].x, b.f[i].x)
         [] OTHER -> Len(a.f) = Len(b.f) /\ \A i \in DOMAIN a.f : VEq(a.f[i], b.f[i])

TagIs(t, n, g) == (t.k = "n" /\ t.n = n) \/ (t.k = "o" /\ t.g = g)
\* the content of an option, as a sequence of at most one value
AsOption(v) ==
    LET x == Skip(v) IN
    IF x.v # "union" THEN Stop
    ELSE IF TagIs(x.t, "none", 0) /\ x.x = [v |-> "unit"] THEN Got(<< >>)
    ELSE IF TagIs(x.t, "some", 1) THEN Got(<< x.x >>)
    ELSE Stop
AsNum(v) == IF Skip(v).v = "num" THEN Got(Skip(v)) ELSE Stop
\* an unsigned number of w bytes
AsUint(v, w) ==
    LET x == Skip(v) IN
    IF x.v = "num" /\ x.k = "u" /\ LESig(x.b) <= w THEN Got([i \in 1..w |-> x.b[i]]) ELSE Stop
AsString(v) ==
    LET x == Skip(v) IN
    CASE x.v = "str" -> Got(x.b)
      [] x.v = "bytes" -> IF Utf8Points(x.b) # << -1 >> THEN Got(x.b) ELSE Stop
      [] x.v = "list" -> IF \A i \in DOMAIN x.f : x.f[i].v = "enum" /\ x.f[i].t.k = "o"
                         THEN LET b == [i \in 1..Len(x.f) |-> x.f[i].t.g] IN IF Utf8Points(b) # << -1 >> THEN Got(b) ELSE Stop
                         ELSE Stop
      [] OTHER -> Stop
AsBytes(v) == IF Skip(v).v = "bytes" THEN Got(Skip(v).b) ELSE Stop
AsTag(v) == IF Skip(v).v = "enum" THEN Got(Skip(v).t) ELSE Stop
\* a variant of a known enumeration, given as the set of its [n, g]
AsVariant(v, E) ==
    LET x == Skip(v)
        S == IF x.v # "enum" THEN {} ELSE { e \in E : IF x.t.k = "n" THEN e.n = x.t.n ELSE e.g = x.t.g }
    IN IF S = {} THEN Stop ELSE Got((CHOOSE e \in S : TRUE).g)
AsUnion(v) == IF Skip(v).v = "union" THEN Got([t |-> Skip(v).t, x |-> Skip(v).x]) ELSE Stop
Item(q, i) == IF i < Len(q) THEN Got(q[i + 1]) ELSE Stop
TupleAt(v, i) == IF Skip(v).v = "tuple" THEN Item(Skip(v).f, i) ELSE Stop
ItemAt(v, i) == IF Skip(v).v \in {"list", "set"} THEN Item(Skip(v).f, i) ELSE Stop
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
FieldAt(v, n) == LET x == Skip(v)
                     S == IF x.v = "struct" THEN { i \in DOMAIN x.f : x.f[i].n = n } ELSE {}
                 IN IF S = {} THEN Stop ELSE Got(x.f[Least(S)].x)
KeyAt(v, key) == LET x == Skip(v)
                     S == IF x.v = "map" THEN { i \in DOMAIN x.f : VEq(x.f[i].k, key) } ELSE {}
                 IN IF S = {} THEN Stop ELSE Got(x.f[Least(S)].x)
=============================================================================
