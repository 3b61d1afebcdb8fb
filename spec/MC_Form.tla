------------------------------- MODULE MC_Form -------------------------------
(* Values on their way through text: typed values are written as documents,   *)
(* documents are read back and typed again; foreign documents are read.       *)
EXTENDS SForm, TLC, Json
CONSTANTS Depth, Letters1, Breadth

In(t) == [r |-> "in", ty |-> t]
B8(x) == << x, 0, 0, 0, 0, 0, 0, 0 >>
Prim(p) == [c |-> "prim", p |-> p]
E2 == [c |-> "enum", v |-> << [n |-> "x", g |-> 0], [n |-> "none", g |-> 3] >>]
CH == [c |-> "enum", v |-> << [n |-> "q", g |-> 34], [n |-> "a", g |-> 98], [n |-> "b", g |-> 97] >>]
Var2(n, g, a, m, h, b) == [c |-> "union", v |-> << [n |-> n, g |-> g, t |-> In(a)], [n |-> m, g |-> h, t |-> In(b)] >>]
Opt(t) == Var2("none", 0, UnitTy, "some", 1, t)
Tup(q) == [c |-> "tuple", f |-> [i \in 1..Len(q) |-> In(q[i])]]
Str(q) == [c |-> "struct", f |-> [i \in 1..Len(q) |-> [n |-> << "b", "a" >>[i], t |-> In(q[i])]]]
Arr(t, n) == [c |-> "array", t |-> In(t), len |-> n]
Col(c, t, lo, hi) == [c |-> c, t |-> In(t), lo |-> B8(lo), hi |-> B8(hi)]
MapOf(k, t, lo, hi) == [c |-> "map", k |-> In(k), t |-> In(t), lo |-> B8(lo), hi |-> B8(hi)]
T0 == { UnitTy, U8Ty, Prim(65), Prim(16), UniTy, E2, CH }
Keys == { U8Ty, UniTy, CH, Col("list", UniTy, 0, 1), Tup(<< U8Ty, UniTy >>) }
Over(S, B) ==      \* types made of those in S, and of those in B where there is a second part
    { Opt(t) : t \in S } \cup { Tup(<< t >>) : t \in S } \cup { Tup(<< t, u >>) : t \in S, u \in B } \cup { Tup(<< u, t >>) : t \in S, u \in B }
    \cup { Str(<< t >>) : t \in S } \cup { Str(<< t, u >>) : t \in S, u \in B } \cup { Arr(t, 2) : t \in S } \cup { Col("list", t, 0, 2) : t \in S }
    \cup { Col("set", t, 0, 2) : t \in S } \cup { Var2("a", 1, t, "b", 34, u) : t \in S, u \in B } \cup { MapOf(k, t, 0, 2) : k \in Keys, t \in S }
\* a type grows by one level
Grown(t, lvl) == CASE lvl = 0 -> Over({t}, T0)
                   [] lvl = 1 /\ Depth > 1 -> Over({t}, {UniTy})
                   [] lvl = 1 -> { Col("list", t, 0, 2), Opt(t), Tup(<< t >>) }
                   [] OTHER -> {}

U(x) == [v |-> "num", k |-> "u", b |-> B8(x)]
I(x) == [v |-> "num", k |-> "i", b |-> << x, 255, 255, 255, 255, 255, 255, 255 >>]
Big(x) == [v |-> "num", k |-> "bu", b |-> [i \in 1..128 |-> IF i <= 16 THEN x ELSE 0]]
SeqsUpTo(X, k) == UNION { [1..j -> X] : j \in 0..k }
\* at most n of a set, in some order that depends on nothing else
RECURSIVE Some1(_, _)
Some1(X, n) == IF n = 0 \/ X = {} THEN {} ELSE LET x == CHOOSE y \in X : TRUE IN { x } \cup Some1(X \ { x }, n - 1)
Few(X) == IF Cardinality(X) <= Breadth THEN X ELSE Some1(X, Breadth)
RECURSIVE Raw0(_)
Inh(t) == { r.v : r \in { x \in { Typify(t, v) : v \in Raw0(t) } : x.k = "ok" } }
Raw0(t) ==
    CASE t.c = "prim" -> IF t.p = 0 THEN { VUnit } ELSE { U(0), U(3), U(123), I(255), I(128), Big(0), Big(254) }
      [] t.c = "uni" -> { VStr(<< c >>) : c \in Letters1 } \cup { VStr(<< 195, 169 >>) }
      [] t.c = "enum" -> { VEnum(t.v[i].n) : i \in 1..Len(t.v) }
      [] t.c = "union" -> UNION { { VUnion(t.v[i].n, x) : x \in Inh(t.v[i].t.ty) } : i \in 1..2 }
      [] t.c = "tuple" -> IF Len(t.f) = 1 THEN { VSeq("tuple", << x >>) : x \in Inh(t.f[1].ty) }
                          ELSE { VSeq("tuple", << x, y >>) : x \in Few(Inh(t.f[1].ty)), y \in Few(Inh(t.f[2].ty)) }
      [] t.c = "struct" -> { [v |-> "struct", f |-> [i \in 1..Len(t.f) |-> [n |-> t.f[i].n, x |-> q[i]]]] :
                             q \in { p \in [1..Len(t.f) -> UNION { Few(Inh(t.f[i].t.ty)) : i \in 1..Len(t.f) }] : \A i \in 1..Len(t.f) : p[i] \in Few(Inh(t.f[i].t.ty)) } }
      [] t.c = "array" -> { VSeq("list", q) : q \in [1..t.len -> Few(Inh(t.t.ty))] }
      [] t.c \in {"list", "set"} -> { VSeq(t.c, q) : q \in SeqsUpTo(Few(Inh(t.t.ty)), 2) }
      [] t.c = "map" -> LET all == { [k |-> a, x |-> y] : a \in Few(Inh(t.k.ty)), y \in Few(Inh(t.t.ty)) }
                        IN { [v |-> "map", f |-> q] : q \in SeqsUpTo(IF Cardinality(all) > 40 THEN Some1(all, 40) ELSE all, 2) }
\* foreign documents
D0 == { DNull, [d |-> "bool", x |-> TRUE], DNum("u", B8(0)), DNum("u", B8(255)), DNum("u", << 0, 1, 0, 0, 0, 0, 0, 0 >>), DNum("i", I(255).b),
        [d |-> "real", b |-> StrBytes("1.5")], DStr(<< >>), DStr(<< 97 >>), DStr(<< 34 >>), DStr(StrBytes("none")), DStr(StrBytes("aB c")), DStr(StrBytes("Ab")) }
DKeys == { DStr(<< >>), DStr(<< 97 >>), DStr(<< 95 >>), DStr(StrBytes("Ab")), DStr(StrBytes("a b")) }
DOver(X) == { DSeq(q) : q \in SeqsUpTo(X, 2) } \cup { DMap(<< >>) }
            \cup { DMap(<< [k |-> a, x |-> x] >>) : a \in DKeys, x \in X }
            \cup { DMap(<< [k |-> DStr(<< 95 >>), x |-> x], [k |-> DStr(<< 97 >>), x |-> y] >>) : x, y \in X }
D1 == DOver(D0)
D2 == DOver({ DSeq(<< DStr(<< 97 >>), DNull >>), DSeq(<< DNum("u", B8(255)), DNull >>), DSeq(<< >>), DMap(<< >>), DMap(<< [k |-> DStr(<< 97 >>), x |-> DNull] >>),
              DSeq(<< [d |-> "bool", x |-> FALSE] >>), DStr(<< 98 >>) })
Foreign == D0 \cup D1 \cup D2

VARIABLES ty, lvl, stage, v, d
vars == << ty, lvl, stage, v, d >>
Init == \/ ty \in T0 /\ lvl = 0 /\ stage = "type" /\ v = VUnit /\ d = DNull
        \/ ty = UnitTy /\ lvl = 0 /\ stage = "foreign" /\ v = VUnit /\ d \in Foreign
Grow == stage = "type" /\ lvl' = lvl + 1 /\ ty' \in Grown(ty, lvl) /\ UNCHANGED << stage, v, d >>
\* printed are the scenarios replayed into the implementation
Choose == stage = "type" /\ PrintT("SCN " \o ToJson([ty |-> ty, vals |-> Inh(ty)])) /\ stage' = "typed" /\ v' \in Inh(ty) /\ UNCHANGED << ty, lvl, d >>
Write == stage = "typed" /\ stage' = "written" /\ d' = Doc(v) /\ UNCHANGED << ty, lvl, v >>
ReadBack == stage = "foreign" /\ PrintT("SCN " \o ToJson([doc |-> d])) /\ LET r == Read(d) IN
              IF r.k = "ok" THEN stage' = "read" /\ v' = r.v /\ UNCHANGED << ty, lvl, d >> ELSE stage' = "refused" /\ UNCHANGED << ty, lvl, v, d >>
Next == Grow \/ Choose \/ Write \/ ReadBack
Spec == Init /\ [][Next]_vars

\* typed values come back, by reading and by conversion
Trip == stage = "written" /\ ~Lossy(v) => ReadAs(ty, d) = Ok(v)
ConvTrip == stage = "written" /\ ~Lossy(v) /\ ~HasBig(v) => ConvAs(ty, d) = Ok(v)
\* the notation tells all values of a type apart
Alike == stage = "type" => LET X == Inh(ty) IN Cardinality({ Ston(x) : x \in X }) = Cardinality(X)
\* documents are preserved or refused
RECURSIVE Exact(_)
Exact(x) == CASE x.d \in {"bool", "real", "time"} -> FALSE
              [] x.d = "seq" -> \A i \in 1..Len(x.f) : Exact(x.f[i])
              [] x.d = "map" -> FALSE
              [] OTHER -> TRUE
Preserved == /\ stage = "read" => Doc(v) = d
             /\ stage = "foreign" /\ Exact(d) => Doc(Conv(d)) = d
=============================================================================
