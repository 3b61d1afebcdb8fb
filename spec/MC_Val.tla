------------------------------- MODULE MC_Val -------------------------------
(* The life of a value, exhaustively over small types: raw data is given a    *)
(* type or refused, typed values are encoded, bytes are decoded or refused.   *)
EXTENDS SVal, TLC, Json
CONSTANTS Alphabet, MaxBytes, Deep

In(t) == [r |-> "in", ty |-> t]
B8(x) == << x, 0, 0, 0, 0, 0, 0, 0 >>
Prim(p) == [c |-> "prim", p |-> p]
E2 == [c |-> "enum", v |-> << [n |-> "x", g |-> 0], [n |-> "y", g |-> 3] >>]
CH == [c |-> "enum", v |-> << [n |-> "b", g |-> 97], [n |-> "a", g |-> 98] >>]  \* names that spell other tags
Opt(t) == [c |-> "union", v |-> << [n |-> "none", g |-> 0, t |-> In(UnitTy)], [n |-> "some", g |-> 1, t |-> In(t)] >>]
Tup(q) == [c |-> "tuple", f |-> [i \in 1..Len(q) |-> In(q[i])]]
Str2(s, t) == [c |-> "struct", f |-> << [n |-> "a", t |-> In(s)], [n |-> "b", t |-> In(t)] >>]
Arr(t, n) == [c |-> "array", t |-> In(t), len |-> n]
Col(c, t, lo, hi) == [c |-> c, t |-> In(t), lo |-> B8(lo), hi |-> B8(hi)]
Lst(t, lo, hi) == Col("list", t, lo, hi)
MapOf(k, t, lo, hi) == [c |-> "map", k |-> In(k), t |-> In(t), lo |-> B8(lo), hi |-> B8(hi)]
Wide(t) == [t EXCEPT !.hi = << 0, 1, 0, 0, 0, 0, 0, 0 >>]      \* two-byte length prefix
RStr == Tup(<< CH, Lst(CH, 0, 1) >>)
Flat1 == { UnitTy, U8Ty, ByteTy, Prim(97), Prim(2), UniTy, E2, CH, Opt(U8Ty), Opt(UnitTy), Opt(CH),
    [c |-> "union", v |-> << [n |-> "p", g |-> 0, t |-> In(UnitTy)], [n |-> "q", g |-> 2, t |-> In(U8Ty)] >>],
    Tup(<< U8Ty >>), Tup(<< U8Ty, E2 >>), RStr, Str2(U8Ty, E2), Arr(U8Ty, 2), Arr(CH, 2), Arr(UniTy, 1), Arr(Prim(2), 1),
    Lst(U8Ty, 0, 2), Wide(Lst(U8Ty, 1, 1)), Lst(Prim(97), 1, 2), Lst(CH, 0, 2), Lst(UniTy, 0, 3), Lst(UnitTy, 0, 2),
    Col("set", U8Ty, 0, 2), Col("set", E2, 1, 2), MapOf(CH, U8Ty, 0, 2), MapOf(U8Ty, E2, 1, 1) }
Nested == { Opt(Opt(U8Ty)), Lst(Opt(U8Ty), 0, 2), Col("set", Lst(U8Ty, 0, 1), 0, 2), Lst(Lst(CH, 0, 2), 0, 2), Opt(Tup(<< U8Ty >>)),
    Str2(Opt(U8Ty), Lst(UniTy, 0, 1)), MapOf(Lst(CH, 0, 1), Tup(<< U8Ty, U8Ty >>), 0, 1), Arr(Arr(U8Ty, 1), 2),
    Tup(<< CH, Lst(U8Ty, 0, 1) >>), Col("set", Prim(97), 0, 2), Col("set", Tup(<< E2, CH >>), 0, 2),
    Col("set", Opt(U8Ty), 0, 2), Tup(<< RStr >>), Lst(RStr, 0, 1), Str2(UnitTy, Tup(<< UnitTy >>)) }
Types == Flat1 \cup Nested

U(x) == [v |-> "num", k |-> "u", b |-> B8(x)]
I(x) == [v |-> "num", k |-> "i", b |-> << x, 255, 255, 255, 255, 255, 255, 255 >>]
Big(k, x) == [v |-> "num", k |-> k, b |-> [i \in 1..128 |-> IF i = 1 THEN x ELSE 0]]
S(q) == VStr(q)
V0 == { VUnit, U(0), U(1), U(3), U(97), U(255), I(255), I(127), [U(0) EXCEPT !.b[2] = 1], Big("bu", 3), Big("bi", 1),
        S(<< >>), S(<< 97 >>), S(<< 97, 98 >>), S(<< 98, 99 >>), S(<< 120 >>), S(<< 195, 169 >>), S(<< 97, 195, 169 >>), S(<< 98, 97, 97 >>),
        VBytes(<< >>), VBytes(<< 1 >>), VBytes(<< 2, 1 >>) }
Small == { VUnit, U(1), U(3), S(<< 97 >>), S(<< 120 >>), S(<< 110, 111, 110, 101 >>), S(<< 115, 111, 109, 101 >>) }
             \cup (IF Deep THEN { I(255), S(<< >>), VBytes(<< 1 >>) } ELSE {})
SeqsUpTo(X, k) == UNION { [1..j -> X] : j \in 0..k }
Tag == { [k |-> "n", n |-> n] : n \in {"x", "a", "none", "some", "q", "zz"} } \cup { [k |-> "o", g |-> g] : g \in {0, 1, 2, 98} }
Fields == { "a", "b", "c" }
DistinctNames(q) == \A i, j \in DOMAIN q : i # j => q[i].n # q[j].n
V1 == { VSeq(c, q) : c \in {"tuple", "list", "set"}, q \in SeqsUpTo(Small, 2) }
      \cup { VSeq("list", << S(<< 97 >>), S(<< 98 >>), U(1) >>), VSeq("list", << U(3), U(1) >>), VSeq("set", << U(3), U(1) >>) }
      \cup { VSeq("struct", q) : q \in { x \in SeqsUpTo([n : Fields, x : {U(1), S(<< 120 >>), VUnit}], 2) : DistinctNames(x) } }
      \cup { VSeq("map", q) : q \in SeqsUpTo([k : {U(1), S(<< 97 >>), S(<< 97 >>), S(<< 98 >>)}, x : {U(3), S(<< 120 >>)}], 2) }
      \cup { [v |-> "enum", t |-> t] : t \in Tag }
      \cup { [v |-> "union", t |-> t, x |-> x] : t \in Tag, x \in { VUnit, U(1), S(<< 97 >>) } }
V2 == { VSeq(c, q) : c \in {"list", "set", "tuple"},
            q \in SeqsUpTo({ VSeq("list", << >>), VSeq("list", << U(1) >>), VSeq("tuple", << U(3), S(<< 97 >>) >>), VSeq("tuple", << U(0), U(98) >>),
                VUnion("some", U(1)), VUnion("none", VUnit), VBytes(<< 1 >>), VUnit, U(3), I(254) }, 2) }
Values == V0 \cup V1 \cup V2
Inputs == SeqsUpTo(Alphabet, MaxBytes)

\* ty: the type; stage; v: untyped or typed value; b: bytes
VARIABLES ty, stage, v, b
vars == << ty, stage, v, b >>
Init == /\ ty \in Types
        /\ \/ stage = "raw" /\ v \in Values /\ b = << >>
           \/ stage = "data" /\ v = VUnit /\ b \in Inputs
GiveType == stage = "raw" /\ LET r == Typify(ty, v) IN
                IF r.k = "ok" THEN stage' = "typed" /\ v' = r.v /\ UNCHANGED << ty, b >>
                ELSE stage' = "refused" /\ UNCHANGED << ty, v, b >>
Encode == stage = "typed" /\ stage' = "encoded" /\ b' = Enc(ty, v) /\ v' = Norm(ty, v) /\ UNCHANGED ty
Decode == stage = "data" /\ LET r == DecWhole(ty, b) IN
                IF r.k = "ok" THEN stage' = "decoded" /\ v' = r.v /\ UNCHANGED << ty, b >>
                ELSE stage' = "refused" /\ UNCHANGED << ty, v, b >>
Next == GiveType \/ Encode \/ Decode
Spec == Init /\ [][Next]_vars

\* C08: the canonical shape is reached in one step
Canonical == (stage = "typed" => Typify(ty, v) = Ok(v)) /\ (stage = "decoded" => Typed(ty, v) /\ Typify(ty, v) = Ok(Arrange(ty, v)))
\* C09: decoding what was encoded gives the value back, and nothing is left over; so does a stream with data behind
RoundTrip == stage = "encoded" => DecWhole(ty, b) = Ok(v) /\ LET r == Dec(ty, b \o << 1, 0 >>, 0) IN r.k = "ok" /\ r.i = Len(b) /\ r.v = v
\* C10: what is accepted is the encoding of the value and no shorter input is accepted
Faithful == stage = "decoded" => Enc(ty, v) = b /\ \A n \in 0..Len(b) - 1 : Dec(ty, SubSeq(b, 1, n), 0).k = "err"
\* the order of collections is the only freedom: the canonical encoding of the same data decodes to the arranged value
Reordered == stage = "decoded" => LET a == Arrange(ty, v) IN Len(Enc(ty, a)) = Len(b) /\ DecWhole(ty, Enc(ty, a)) = Ok(a)
\* the canonical order is one
Ordered == stage = "encoded" /\ ty.c \in {"set", "map"} => \A i \in 1..Len(v.f) - 1 :
             IF ty.c = "set" THEN Cmp(ty.t.ty, v.f[i], v.f[i + 1]) = -1 /\ Cmp(ty.t.ty, v.f[i + 1], v.f[i]) = 1
             ELSE Cmp(ty.k.ty, v.f[i].k, v.f[i + 1].k) = -1
\* the scenarios replayed into the implementation
ASSUME \A t \in Types : PrintT("SCN " \o ToJson([ty |-> t, vals |-> Values, bytes |-> Inputs]))
=============================================================================
