------------------------------- MODULE MC_List -------------------------------
(* Listing bodies tell definitions apart, up to one-element tuples.           *)
EXTENDS SList, TLC, Json
CONSTANTS Names, Deep
VARIABLES ty, text
vars == << ty, text >>

Tn(n) == [r |-> "tn", name |-> n]
E(t) == [r |-> "em", ty |-> t]
P(p) == [c |-> "prim", p |-> p]
B(n) == LEOf(n, 8)
V(n, g) == [n |-> n, g |-> g]
VT(n, g, t) == [n |-> n, g |-> g, t |-> t]
F(n, t) == [n |-> n, t |-> t]
Sizes == { << 0, 65535 >>, << 1, 1 >>, << 0, 1 >>, << 1, 65535 >>, << 1, 2 >> }
Cons(R) ==
    { [c |-> "tuple", f |-> << x >>] : x \in R }
    \cup { [c |-> "tuple", f |-> << x, y >>] : x, y \in R }
    \cup { [c |-> "struct", f |-> << F(n, x) >>] : n \in {"a", "b"}, x \in R }
    \cup { [c |-> "struct", f |-> << F("a", x), F("b", y) >>] : x, y \in R }
    \cup { [c |-> "enum", v |-> q] : q \in { << V("a", 0) >>, << V("a", 1) >>, << V("a", 0), V("b", 1) >>, << V("a", 0), V("b", 2) >>, << V("a", 0), V("b", 1), V("c", 2) >> } }
    \cup { [c |-> "union", v |-> << VT("a", g, x) >>] : g \in {0, 1}, x \in R }
    \cup { [c |-> "union", v |-> << VT("a", 0, x), VT("b", 1, y) >>] : x, y \in R }
    \cup { [c |-> "union", v |-> << VT("none", 0, x), VT("some", 1, y) >>] : x \in {E(P(0)), E(P(1))}, y \in R }
    \cup { [c |-> "array", t |-> x, len |-> 1] : x \in R }
    \cup { [c |-> k, t |-> x, lo |-> B(s[1]), hi |-> B(s[2])] : k \in {"list", "set"}, x \in R, s \in Sizes }
    \cup { [c |-> "map", k |-> x, t |-> y, lo |-> B(s), hi |-> B(65535)] : x, y \in R, s \in {0, 65535} }
Wide(R) == \* three fields
    { [c |-> "tuple", f |-> << x, y, z >>] : x, y, z \in R }
    \cup { [c |-> "struct", f |-> << F("a", x), F("b", y), F("c", z) >>] : x, y, z \in R }
R0 == { Tn(n) : n \in Names } \cup { E(P(1)) }
T1 == Cons(R0) \cup Wide(R0) \cup { P(0), P(1), P(64), P(65), P(128 + 1), P(32), [c |-> "uni"] }
Few == { t \in T1 : t.c \in {"tuple", "enum", "union", "struct", "map"} }
R1 == R0 \cup { E(t) : t \in IF Deep THEN T1 ELSE Few }
All == T1 \cup Cons(R1)

\* a one-element tuple is listed as its element
RECURSIVE N(_), NR(_)
NR(r) == IF r.r # "em" THEN r ELSE IF r.ty.c = "tuple" /\ Len(r.ty.f) = 1 THEN NR(r.ty.f[1]) ELSE E(N(r.ty))
N(t) == IF t.c = "tuple" /\ Len(t.f) = 1 THEN LET x == NR(t.f[1]) IN IF x.r = "em" THEN x.ty ELSE [c |-> "tuple", f |-> << x >>]
        ELSE MapRefs(t, LAMBDA r : NR(r))
Words(t) == SplitWords(BodyOf(t, SymRefText))
Pairs == { << Words(t), N(t) >> : t \in All }
ASSUME Cardinality(Pairs) = Cardinality({ p[1] : p \in Pairs })

Init == ty \in (IF Deep THEN T1 \cup Cons(R0 \cup { E(t) : t \in Few }) ELSE All) /\ text = Words(ty)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Shown == text # << >>
Dump == PrintT("SCN " \o ToJson(ty))
=============================================================================
