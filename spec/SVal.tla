-------------------------------- MODULE SVal --------------------------------
(* Values of types: which untyped values represent an inhabitant of a type,   *)
(* the canonical shape of typed values, their binary encoding, and decoding.  *)
(*                                                                            *)
(* A type here is a definition whose references lead to definitions: either   *)
(* [r |-> "in", ty], in the closed tree reachable from one type of a complete *)
(* system, or an identifier.  Values are records with field v:                *)
(*   "unit"; "num" (k: "u"|"i" 64 bits, "bu"|"bi" 1024 bits; b: the two's      *)
(*   complement, little endian); "str", "bytes" (b); "tuple"|"list"|"set" (f); *)
(*   "struct" (f: <<[n, x]>>); "map" (f: <<[k, x]>>); "enum" (t); "union" (t,x) *)
(* where t is [k |-> "n", n] (by name) or [k |-> "o", g] (by tag).            *)
EXTENDS STypes
\* the definition a reference stands for; Inline when it is part of the reference
CONSTANT Deref(_)
Inline(r) == r.ty

Ok(v) == [k |-> "ok", v |-> v]
Err == [k |-> "err"]
VUnit == [v |-> "unit"]
VStr(b) == [v |-> "str", b |-> b]
VBytes(b) == [v |-> "bytes", b |-> b]
VSeq(c, f) == [v |-> c, f |-> f]
VEnum(n) == [v |-> "enum", t |-> [k |-> "n", n |-> n]]
VUnion(n, x) == [v |-> "union", t |-> [k |-> "n", n |-> n], x |-> x]
VOrd(g) == [v |-> "num", k |-> "u", b |-> << g, 0, 0, 0, 0, 0, 0, 0 >>]

\* ---- numbers ----------------------------------------------------------------------
Sz(p) == IF p = 64 THEN 1 ELSE LET m == p % 64 IN IF m < 32 THEN m ELSE 16 * (m - 30)
IntPrim(p) == p \in 1..127 /\ Sz(p) \in 1..128
SignedP(p) == p > 64
Neg(x) == x.k \in {"i", "bi"} /\ x.b[Len(x.b)] >= 128
XB(x, i) == IF i <= Len(x.b) THEN x.b[i] ELSE IF Neg(x) THEN 255 ELSE 0
\* the canonical form of the integer with the given bytes
Num(p, b) ==
    LET s == Sz(p)
        ext == IF SignedP(p) /\ b[s] >= 128 THEN 255 ELSE 0
    IN [v |-> "num", k |-> (IF s <= 8 THEN "" ELSE "b") \o (IF SignedP(p) THEN "i" ELSE "u"),
        b |-> [i \in 1..(IF s <= 8 THEN 8 ELSE 128) |-> IF i <= s THEN b[i] ELSE ext]]
Fit(x, p) ==
    IF ~IntPrim(p) THEN Err
    ELSE LET s == Sz(p)
             b == [i \in 1..s |-> XB(x, i)]
             ext == IF SignedP(p) /\ b[s] >= 128 THEN 255 ELSE 0
         IN IF (ext = 255) = Neg(x) /\ (\A i \in s+1..Len(x.b) : x.b[i] = ext) THEN Ok(Num(p, b)) ELSE Err
IsU8(x) == x.v = "num" /\ Fit(x, 1).k = "ok"

\* ---- classification of types ----------------------------------------------------------
IsByteTy(ty) == ty \in {ByteTy, U8Ty}
HasTag(ty, g) == \E i \in 1..Len(ty.v) : ty.v[i].g = g
HasName(ty, n) == \E i \in 1..Len(ty.v) : ty.v[i].n = n
VarByTag(ty, g) == ty.v[CHOOSE i \in 1..Len(ty.v) : ty.v[i].g = g]
VarByName(ty, n) == ty.v[CHOOSE i \in 1..Len(ty.v) : ty.v[i].n = n]
\* a variant whose name is spelled by the bytes
Spelled(ty, b) == { i \in 1..Len(ty.v) : StrBytes(ty.v[i].n) = b }
Known(ty, t) == IF t.k = "n" THEN HasName(ty, t.n) ELSE HasTag(ty, t.g)
Var(ty, t) == IF t.k = "n" THEN VarByName(ty, t.n) ELSE VarByTag(ty, t.g)
IsCharEnum(ty) == ty.c = "enum" /\ \A i \in 1..Len(ty.v) : ty.v[i].g \in 32..127
CharStr(ty, b) == IsCharEnum(ty) /\ \A i \in 1..Len(b) : HasTag(ty, b[i])
\* a string over the tags of any enumeration (such as all of ASCII, control characters included)
TagStr(ty, b) == ty.c = "enum" /\ \A i \in 1..Len(b) : b[i] < 128 /\ HasTag(ty, b[i])
Letters(ty, b) == VSeq("list", [i \in 1..Len(b) |-> VEnum(VarByTag(ty, b[i]).n)])
\* an option has nothing in its first variant (a wrapped unit has no identity of its own)
RECURSIVE Unwrapped(_)
Unwrapped(ty) == IF ty.c = "tuple" /\ Len(ty.f) = 1 THEN Unwrapped(Deref(ty.f[1])) ELSE ty
IsOption(ty) == ty.c = "union" /\ Len(ty.v) = 2 /\ ty.v[1].n = "none" /\ ty.v[1].g = 0 /\ ty.v[2].n = "some" /\ ty.v[2].g = 1
                /\ Unwrapped(Deref(ty.v[1].t)) = [c |-> "prim", p |-> 0]
IsRStr(ty) == /\ ty.c = "tuple" /\ Len(ty.f) = 2 /\ IsCharEnum(Deref(ty.f[1]))
              /\ Deref(ty.f[2]).c = "list" /\ IsCharEnum(Deref(Deref(ty.f[2]).t))
SizeIn(lo, hi, n) == LELeq(lo, LEOf(n, 8)) /\ LELeq(LEOf(n, 8), hi)
SizeOk(ty, n) == SizeIn(ty.lo, ty.hi, n)
\* saturating successor of a 64-bit number
RECURSIVE IncAt(_)
IncAt(b) == IF b = << >> THEN << >> ELSE IF b[1] < 255 THEN << b[1] + 1 >> \o Tail(b) ELSE << 0 >> \o IncAt(Tail(b))
Inc(b) == IF \A i \in 1..Len(b) : b[i] = 255 THEN b ELSE IncAt(b)
RLo(ty) == Inc(Deref(ty.f[2]).lo)
RHi(ty) == Inc(Deref(ty.f[2]).hi)
RStrOk(ty, b) == /\ Len(b) > 0 /\ SizeIn(RLo(ty), RHi(ty), Len(b))
                 /\ CharStr(Deref(ty.f[1]), SubSeq(b, 1, 1)) /\ CharStr(Deref(Deref(ty.f[2]).t), Tail(b))

\* ---- UTF-8 ----------------------------------------------------------------------------
IsLead(x) == x < 128 \/ x >= 192
NChars(b) == Cardinality({ i \in 1..Len(b) : IsLead(b[i]) })
RECURSIVE CharsAt(_, _, _)
CharsAt(b, i, q) ==
    IF i > Len(b) THEN q
    ELSE CharsAt(b, i + 1, IF IsLead(b[i]) THEN Append(q, << b[i] >>) ELSE [q EXCEPT ![Len(q)] = Append(@, b[i])])
Chars(b) == CharsAt(b, 1, << >>)
ValidUtf8(b) == Utf8Points(b) # << -1 >>

\* ---- the canonical order, that of the native collections ---------------------------------
NumCmp(a, b) ==
    IF Neg(a) # Neg(b) THEN (IF Neg(a) THEN -1 ELSE 1) ELSE LECmp(a.b, b.b)
ByteCmp(a, b) == IF a = b THEN 0 ELSE IF BytesLT(a, b) THEN -1 ELSE 1
Then(x, y) == IF x # 0 THEN x ELSE y
FieldOf(v, n) == v.f[CHOOSE i \in 1..Len(v.f) : v.f[i].n = n].x
RECURSIVE Cmp(_, _, _), CmpSeq(_, _, _, _), CmpMap(_, _, _, _, _), CmpTup(_, _, _, _), CmpStr(_, _, _, _)
CmpSeq(ty, a, b, i) ==
    IF i > Len(a) \/ i > Len(b) THEN (IF Len(a) = Len(b) THEN 0 ELSE IF Len(a) < Len(b) THEN -1 ELSE 1)
    ELSE LET c == Cmp(ty, a[i], b[i]) IN IF c # 0 THEN c ELSE CmpSeq(ty, a, b, i + 1)
CmpMap(kt, vt, a, b, i) ==
    IF i > Len(a) \/ i > Len(b) THEN (IF Len(a) = Len(b) THEN 0 ELSE IF Len(a) < Len(b) THEN -1 ELSE 1)
    ELSE LET c == Then(Cmp(kt, a[i].k, b[i].k), Cmp(vt, a[i].x, b[i].x)) IN IF c # 0 THEN c ELSE CmpMap(kt, vt, a, b, i + 1)
CmpTup(fs, a, b, i) == IF i > Len(fs) THEN 0 ELSE Then(Cmp(Deref(fs[i]), a.f[i], b.f[i]), CmpTup(fs, a, b, i + 1))
CmpStr(fs, a, b, i) ==
    IF i > Len(fs) THEN 0 ELSE Then(Cmp(Deref(fs[i].t), FieldOf(a, fs[i].n), FieldOf(b, fs[i].n)), CmpStr(fs, a, b, i + 1))
IntCmp(a, b) == IF a = b THEN 0 ELSE IF a < b THEN -1 ELSE 1
Cmp(ty, a, b) ==
    CASE a.v = "unit" -> 0
      [] a.v = "num" -> NumCmp(a, b)
      [] a.v \in {"str", "bytes"} -> ByteCmp(a.b, b.b)
      [] a.v = "enum" -> IntCmp(VarByName(ty, a.t.n).g, VarByName(ty, b.t.n).g)
      [] a.v = "union" -> LET x == VarByName(ty, a.t.n) y == VarByName(ty, b.t.n) IN
            IF x.g # y.g THEN IntCmp(x.g, y.g) ELSE Cmp(Deref(x.t), a.x, b.x)
      [] a.v = "tuple" -> CmpTup(ty.f, a, b, 1)
      [] a.v = "struct" -> CmpStr(ty.f, a, b, 1)
      [] a.v \in {"list", "set"} -> CmpSeq(Deref(ty.t), a.f, b.f, 1)
      [] a.v = "map" -> CmpMap(Deref(ty.k), Deref(ty.t), a.f, b.f, 1)
Same(ty, a, b) == a.v = b.v /\ Cmp(ty, a, b) = 0
\* insertion sort of pairs [k, x] by k, stable
RECURSIVE InsertBy(_, _, _), SortBy(_, _)
InsertBy(ty, q, x) ==
    IF q = << >> THEN << x >>
    ELSE IF Cmp(ty, x.k, q[Len(q)].k) >= 0 THEN Append(q, x)
    ELSE Append(InsertBy(ty, SubSeq(q, 1, Len(q) - 1), x), q[Len(q)])
SortBy(ty, q) == IF q = << >> THEN << >> ELSE InsertBy(ty, SortBy(ty, SubSeq(q, 1, Len(q) - 1)), q[Len(q)])
Sorted(ty, q) == LET s == SortBy(ty, [i \in 1..Len(q) |-> [k |-> q[i], x |-> q[i]]]) IN [i \in 1..Len(q) |-> s[i].k]
Distinct(ty, q) == \A i, j \in 1..Len(q) : i < j => ~Same(ty, q[i], q[j])

\* ---- representation: text forms confuse lists, sets, tuples, maps and unions -----------------
TagVal(t) == IF t.k = "n" THEN VStr(StrBytes(t.n)) ELSE VOrd(t.g)
AsPair(v) == IF v.v = "union" THEN << TagVal(v.t), v.x >> ELSE v.f
IsPair(v) == v.v = "union" \/ (v.v = "list" /\ Len(v.f) = 2)
Reshape(ty, v0) ==
    LET v == IF v0.v = "union" /\ (ty.c \in {"array", "list", "set"} \/ (ty.c = "tuple" /\ Len(ty.f) = 2))
             THEN VSeq("list", AsPair(v0)) ELSE v0
    IN IF v.v # "list" THEN v
       ELSE IF ty.c \in {"array", "list"} /\ IsByteTy(Deref(ty.t)) /\ (\A i \in 1..Len(v.f) : IsU8(v.f[i]))
            THEN VBytes([i \in 1..Len(v.f) |-> XB(v.f[i], 1)])
       ELSE IF ty.c = "list" /\ Deref(ty.t) = UniTy /\ (\A i \in 1..Len(v.f) : v.f[i].v = "str" /\ NChars(v.f[i].b) = 1)
            THEN VStr(Flat([i \in 1..Len(v.f) |-> v.f[i].b]))
       ELSE IF ty.c = "set" THEN VSeq("set", v.f)
       ELSE IF ty.c = "map" /\ (\A i \in 1..Len(v.f) : IsPair(v.f[i]))
            THEN VSeq("map", [i \in 1..Len(v.f) |-> [k |-> AsPair(v.f[i])[1], x |-> AsPair(v.f[i])[2]]])
       ELSE IF ty.c = "union" /\ Len(v.f) = 2 /\ v.f[1].v = "str" /\ Spelled(ty, v.f[1].b) # {}
            THEN VUnion(ty.v[CHOOSE i \in Spelled(ty, v.f[1].b) : TRUE].n, v.f[2])
       ELSE v

AllOk(rs) == \A i \in 1..Len(rs) : rs[i].k = "ok"
Vals(rs) == [i \in 1..Len(rs) |-> rs[i].v]
RECURSIVE Typify(_, _)
\* results for a sequence of items of one type
Each(ty, f) == [i \in 1..Len(f) |-> Typify(ty, f[i])]
TypifyTuple(ty, f) ==
    LET rs == [i \in 1..Len(f) |-> Typify(Deref(ty.f[i]), f[i])] IN
    IF ~AllOk(rs) THEN Err
    ELSE IF IsRStr(ty) THEN Ok(VStr(<< VarByName(Deref(ty.f[1]), rs[1].v.t.n).g >> \o rs[2].v.b))
    ELSE Ok(VSeq("tuple", Vals(rs)))
TypifyStruct(ty, q) ==     \* q: sequence of [n, x], in the given order
    IF Len(q) # Len(ty.f) \/ { q[i].n : i \in 1..Len(q) } # { ty.f[i].n : i \in 1..Len(ty.f) } THEN Err
    ELSE LET rs == [i \in 1..Len(q) |-> Typify(Deref(ty.f[CHOOSE j \in 1..Len(ty.f) : ty.f[j].n = q[i].n].t), q[i].x)] IN
         IF AllOk(rs) THEN Ok([v |-> "struct", f |-> [i \in 1..Len(q) |-> [n |-> q[i].n, x |-> rs[i].v]]]) ELSE Err
FieldSpelled(ty, b) == { i \in 1..Len(ty.f) : StrBytes(ty.f[i].n) = b }
Some(ty, v) == LET r == Typify(Deref(ty.v[2].t), v) IN IF r.k = "ok" THEN Ok(VUnion("some", r.v)) ELSE Err
TypifyIn(ty, v) ==
    CASE ty.c = "prim" /\ ty.p = 0 ->
            IF v.v = "unit" \/ (v.v \in {"tuple", "struct", "list", "map"} /\ v.f = << >>) THEN Ok(VUnit) ELSE Err
      [] ty.c = "prim" /\ ty.p # 0 -> IF v.v = "num" THEN Fit(v, ty.p) ELSE Err
      [] ty.c = "uni" -> IF v.v = "str" /\ NChars(v.b) = 1 THEN Ok(v) ELSE Err
      [] ty.c = "array" ->
            LET t == Deref(ty.t) IN
            IF v.v = "bytes" THEN (IF IsByteTy(t) /\ Len(v.b) = ty.len THEN Ok(v) ELSE Err)
            ELSE IF v.v = "str" THEN
                IF IsByteTy(t) THEN (IF Len(v.b) = ty.len THEN Ok(VBytes(v.b)) ELSE Err)
                ELSE IF NChars(v.b) # ty.len THEN Err
                ELSE IF t = UniTy THEN Ok(VSeq("list", [i \in 1..ty.len |-> VStr(Chars(v.b)[i])]))
                ELSE IF TagStr(t, v.b) THEN Ok(Letters(t, v.b))
                ELSE Err
            ELSE IF v.v = "list" /\ Len(v.f) = ty.len THEN
                LET rs == Each(t, v.f) IN IF AllOk(rs) THEN Ok(VSeq("list", Vals(rs))) ELSE Err
            ELSE Err
      [] ty.c = "list" ->
            LET t == Deref(ty.t) IN
            IF v.v = "bytes" THEN (IF IsByteTy(t) /\ SizeOk(ty, Len(v.b)) THEN Ok(v) ELSE Err)
            ELSE IF v.v = "str" THEN
                IF ~SizeOk(ty, Len(v.b)) THEN Err
                ELSE IF IsByteTy(t) THEN Ok(VBytes(v.b))
                ELSE IF t = UniTy \/ CharStr(t, v.b) THEN Ok(v)
                ELSE IF TagStr(t, v.b) THEN Ok(Letters(t, v.b))
                ELSE Err
            ELSE IF v.v = "list" /\ SizeOk(ty, Len(v.f)) THEN
                LET rs == Each(t, v.f) IN
                IF ~AllOk(rs) THEN Err
                ELSE IF IsCharEnum(t) THEN Ok(VStr([i \in 1..Len(rs) |-> VarByName(t, rs[i].v.t.n).g]))
                ELSE Ok(VSeq("list", Vals(rs)))
            ELSE Err
      [] ty.c = "set" ->
            IF v.v = "set" /\ SizeOk(ty, Len(v.f)) THEN
                LET rs == Each(Deref(ty.t), v.f) IN
                IF AllOk(rs) /\ Distinct(Deref(ty.t), Vals(rs)) THEN Ok(VSeq("set", Sorted(Deref(ty.t), Vals(rs)))) ELSE Err
            ELSE Err
      [] ty.c = "map" ->
            IF v.v = "map" /\ SizeOk(ty, Len(v.f)) THEN
                LET ks == [i \in 1..Len(v.f) |-> Typify(Deref(ty.k), v.f[i].k)]
                    xs == [i \in 1..Len(v.f) |-> Typify(Deref(ty.t), v.f[i].x)]
                IN IF AllOk(ks) /\ AllOk(xs) /\ Distinct(Deref(ty.k), Vals(ks))
                   THEN Ok(VSeq("map", SortBy(Deref(ty.k), [i \in 1..Len(v.f) |-> [k |-> ks[i].v, x |-> xs[i].v]])))
                   ELSE Err
            ELSE Err
      [] ty.c = "enum" ->
            IF v.v = "enum" THEN (IF Known(ty, v.t) THEN Ok(VEnum(Var(ty, v.t).n)) ELSE Err)
            ELSE IF v.v = "str" THEN
                IF Spelled(ty, v.b) # {} THEN Ok(VEnum(ty.v[CHOOSE i \in Spelled(ty, v.b) : TRUE].n))
                ELSE IF Len(v.b) = 1 /\ HasTag(ty, v.b[1]) THEN Ok(VEnum(VarByTag(ty, v.b[1]).n))
                ELSE Err
            ELSE IF v.v = "num" /\ v.k = "u" /\ LESig(v.b) <= 1 /\ HasTag(ty, v.b[1]) THEN Ok(VEnum(VarByTag(ty, v.b[1]).n))
            ELSE Err
      [] ty.c = "union" ->
            IF v.v = "union" THEN
                IF ~Known(ty, v.t) THEN Err
                ELSE LET x == Var(ty, v.t) r == Typify(Deref(x.t), v.x) IN IF r.k = "ok" THEN Ok(VUnion(x.n, r.v)) ELSE Err
            ELSE IF ~IsOption(ty) THEN Err
            ELSE IF v.v = "unit" THEN Ok(VUnion("none", VUnit))
            ELSE IF v.v = "tuple" /\ Len(v.f) = 2 THEN
                IF v.f[1] = VStr(StrBytes("none")) /\ v.f[2] = VUnit THEN Ok(VUnion("none", VUnit))
                ELSE IF v.f[1] = VStr(StrBytes("some")) THEN Some(ty, v.f[2])
                ELSE Err
            ELSE Some(ty, v)
      [] ty.c = "tuple" ->
            IF v.v = "str" /\ IsRStr(ty) THEN (IF RStrOk(ty, v.b) THEN Ok(v) ELSE Err)
            ELSE IF v.v \in {"tuple", "list"} /\ Len(v.f) = Len(ty.f) THEN TypifyTuple(ty, v.f)
            ELSE IF Len(ty.f) = 1 /\ v.v # "tuple" THEN
                LET r == Typify(Deref(ty.f[1]), v) IN IF r.k = "ok" THEN Ok(VSeq("tuple", << r.v >>)) ELSE Err
            ELSE Err
      [] ty.c = "struct" ->
            IF v.v = "struct" THEN TypifyStruct(ty, v.f)
            ELSE IF v.v = "map" THEN
                IF \A i \in 1..Len(v.f) : v.f[i].k.v = "str" /\ FieldSpelled(ty, v.f[i].k.b) # {}
                THEN TypifyStruct(ty, [i \in 1..Len(v.f) |-> [n |-> ty.f[CHOOSE j \in FieldSpelled(ty, v.f[i].k.b) : TRUE].n, x |-> v.f[i].x]])
                ELSE Err
            ELSE Err
Typify(ty, v) == TypifyIn(ty, Reshape(ty, v))

\* the order in which the fields of a structure value are kept is that of the source
RECURSIVE Norm(_, _)
Norm(ty, v) ==
    CASE v.v = "struct" -> [v |-> "struct", f |-> [i \in 1..Len(ty.f) |-> [n |-> ty.f[i].n, x |-> Norm(Deref(ty.f[i].t), FieldOf(v, ty.f[i].n))]]]
      [] v.v = "tuple" -> VSeq("tuple", [i \in 1..Len(v.f) |-> Norm(Deref(ty.f[i]), v.f[i])])
      [] v.v \in {"list", "set"} -> VSeq(v.v, [i \in 1..Len(v.f) |-> Norm(Deref(ty.t), v.f[i])])
      [] v.v = "map" -> VSeq("map", [i \in 1..Len(v.f) |-> [k |-> Norm(Deref(ty.k), v.f[i].k), x |-> Norm(Deref(ty.t), v.f[i].x)]])
      [] v.v = "union" -> [v EXCEPT !.x = Norm(Deref(VarByName(ty, v.t.n).t), v.x)]
      [] OTHER -> v

\* The canonical order of a value which has its collections in some other order (such as that of a
\* Rust type with an ordering of its own, which its strict type does not tell)
RECURSIVE Arrange(_, _)
Arrange(ty, v) ==
    CASE v.v = "struct" -> [v |-> "struct", f |-> [i \in 1..Len(v.f) |-> [v.f[i] EXCEPT !.x = Arrange(Deref(ty.f[CHOOSE j \in 1..Len(ty.f) : ty.f[j].n = v.f[i].n].t), v.f[i].x)]]]
      [] v.v = "tuple" -> VSeq("tuple", [i \in 1..Len(v.f) |-> Arrange(Deref(ty.f[i]), v.f[i])])
      [] v.v = "list" -> VSeq("list", [i \in 1..Len(v.f) |-> Arrange(Deref(ty.t), v.f[i])])
      [] v.v = "set" -> VSeq("set", Sorted(Deref(ty.t), [i \in 1..Len(v.f) |-> Arrange(Deref(ty.t), v.f[i])]))
      [] v.v = "map" -> VSeq("map", SortBy(Deref(ty.k), [i \in 1..Len(v.f) |-> [k |-> Arrange(Deref(ty.k), v.f[i].k), x |-> Arrange(Deref(ty.t), v.f[i].x)]]))
      [] v.v = "union" -> [v EXCEPT !.x = Arrange(Deref(VarByName(ty, v.t.n).t), v.x)]
      [] OTHER -> v
Differing(ty, q) == Distinct(ty, [i \in 1..Len(q) |-> Arrange(ty, q[i])])
\* a value in the shape of typed values
Typed(ty, v) == LET r == Typify(ty, v) IN r.k = "ok" /\ (r.v = v \/ r.v = Arrange(ty, v))

\* ---- binary encoding of a typed value -----------------------------------------------------
Width(hi) == LET s == LESig(hi) IN IF s <= 1 THEN 1 ELSE IF s <= 4 THEN s ELSE 8
Pre(hi, n) == LEOf(n, Width(hi))
RECURSIVE Enc(_, _)
Enc(ty, v) ==
    CASE v.v = "unit" -> << >>
      [] v.v = "num" -> SubSeq(v.b, 1, Sz(ty.p))
      [] v.v = "bytes" -> IF ty.c = "array" THEN v.b ELSE Pre(ty.hi, Len(v.b)) \o v.b
      [] v.v = "str" -> IF ty.c = "uni" THEN v.b
                        ELSE IF ty.c = "tuple" THEN Pre(RHi(ty), Len(v.b)) \o v.b
                        ELSE Pre(ty.hi, Len(v.b)) \o v.b
      [] v.v = "enum" -> << VarByName(ty, v.t.n).g >>
      [] v.v = "union" -> LET x == VarByName(ty, v.t.n) IN << x.g >> \o Enc(Deref(x.t), v.x)
      [] v.v = "tuple" -> Flat([i \in 1..Len(v.f) |-> Enc(Deref(ty.f[i]), v.f[i])])
      [] v.v = "struct" -> Flat([i \in 1..Len(ty.f) |-> Enc(Deref(ty.f[i].t), FieldOf(v, ty.f[i].n))])
      [] v.v = "list" /\ ty.c = "array" -> Flat([i \in 1..Len(v.f) |-> Enc(Deref(ty.t), v.f[i])])
      [] v.v \in {"list", "set"} /\ ty.c # "array" -> Pre(ty.hi, Len(v.f)) \o Flat([i \in 1..Len(v.f) |-> Enc(Deref(ty.t), v.f[i])])
      [] v.v = "map" -> Pre(ty.hi, Len(v.f)) \o Flat([i \in 1..Len(v.f) |-> Enc(Deref(ty.k), v.f[i].k) \o Enc(Deref(ty.t), v.f[i].x)])

\* ---- decoding; results carry the number of bytes consumed -----------------------------------
Got(v, i) == [k |-> "ok", v |-> v, i |-> i]
\* a run of n raw bytes after position i
Raw(b, i, n) == IF i + n <= Len(b) THEN Got(SubSeq(b, i + 1, i + n), i + n) ELSE Err
Length(b, i, hi) == LET r == Raw(b, i, Width(hi)) IN IF r.k = "ok" THEN Got(LEVal(r.v), r.i) ELSE Err
RawLen(b, i, hi) == LET n == Length(b, i, hi) IN IF n.k = "ok" THEN Raw(b, n.i, n.v) ELSE Err
RECURSIVE Dec(_, _, _), DecAll(_, _, _, _, _)
\* n items, whose types are those of tys, over and over
DecAll(tys, n, b, i, acc) ==
    IF Len(acc) = n THEN Got(acc, i)
    ELSE LET r == Dec(tys[(Len(acc) % Len(tys)) + 1], b, i) IN IF r.k = "ok" THEN DecAll(tys, n, b, r.i, Append(acc, r.v)) ELSE Err
DecSeq(t, n, b, i) == DecAll(<< t >>, n, b, i, << >>)
Dec(ty, b, i) ==
    CASE ty.c = "prim" ->
            IF ty.p = 0 THEN Got(VUnit, i)
            ELSE IF ~IntPrim(ty.p) THEN Err
            ELSE LET r == Raw(b, i, Sz(ty.p)) IN IF r.k = "ok" THEN Got(Num(ty.p, r.v), r.i) ELSE Err
      [] ty.c = "uni" ->
            LET r == Raw(b, i, 1) IN
            IF r.k # "ok" THEN Err
            ELSE LET h == r.v[1]
                     q == Raw(b, i, IF h < 192 THEN 1 ELSE IF h < 224 THEN 2 ELSE IF h < 240 THEN 3 ELSE 4)
                 IN IF q.k = "ok" /\ ValidUtf8(q.v) THEN Got(VStr(q.v), q.i) ELSE Err
      [] ty.c = "enum" -> LET r == Raw(b, i, 1) IN IF r.k = "ok" /\ HasTag(ty, r.v[1]) THEN Got(VEnum(VarByTag(ty, r.v[1]).n), r.i) ELSE Err
      [] ty.c = "union" ->
            LET r == Raw(b, i, 1) IN
            IF r.k # "ok" \/ ~HasTag(ty, r.v[1]) THEN Err
            ELSE LET x == VarByTag(ty, r.v[1]) q == Dec(Deref(x.t), b, r.i) IN IF q.k = "ok" THEN Got(VUnion(x.n, q.v), q.i) ELSE Err
      [] ty.c = "tuple" ->
            IF IsRStr(ty) THEN LET r == RawLen(b, i, RHi(ty)) IN IF r.k = "ok" /\ RStrOk(ty, r.v) THEN Got(VStr(r.v), r.i) ELSE Err
            ELSE LET r == DecAll([j \in 1..Len(ty.f) |-> Deref(ty.f[j])], Len(ty.f), b, i, << >>) IN
                 IF r.k = "ok" THEN Got(VSeq("tuple", r.v), r.i) ELSE Err
      [] ty.c = "struct" ->
            LET r == DecAll([j \in 1..Len(ty.f) |-> Deref(ty.f[j].t)], Len(ty.f), b, i, << >>) IN
            IF r.k = "ok" THEN Got([v |-> "struct", f |-> [j \in 1..Len(ty.f) |-> [n |-> ty.f[j].n, x |-> r.v[j]]]], r.i) ELSE Err
      [] ty.c = "array" ->
            IF IsByteTy(Deref(ty.t)) THEN LET r == Raw(b, i, ty.len) IN IF r.k = "ok" THEN Got(VBytes(r.v), r.i) ELSE Err
            ELSE LET r == DecSeq(Deref(ty.t), ty.len, b, i) IN IF r.k = "ok" THEN Got(VSeq("list", r.v), r.i) ELSE Err
      [] ty.c = "list" ->
            LET t == Deref(ty.t) IN
            IF IsByteTy(t) \/ t = UniTy \/ IsCharEnum(t) THEN
                LET r == RawLen(b, i, ty.hi) IN
                IF r.k # "ok" \/ ~SizeOk(ty, Len(r.v)) THEN Err
                ELSE IF IsByteTy(t) THEN Got(VBytes(r.v), r.i)
                ELSE IF (t = UniTy /\ ValidUtf8(r.v)) \/ (t # UniTy /\ CharStr(t, r.v)) THEN Got(VStr(r.v), r.i)
                ELSE Err
            ELSE LET n == Length(b, i, ty.hi) IN
                 IF n.k # "ok" \/ ~SizeOk(ty, n.v) THEN Err
                 ELSE LET r == DecSeq(t, n.v, b, n.i) IN IF r.k = "ok" THEN Got(VSeq("list", r.v), r.i) ELSE Err
      [] ty.c = "set" ->
            LET n == Length(b, i, ty.hi) IN
            IF n.k # "ok" \/ ~SizeOk(ty, n.v) THEN Err
            ELSE LET r == DecSeq(Deref(ty.t), n.v, b, n.i) IN
                 IF r.k = "ok" /\ Differing(Deref(ty.t), r.v) THEN Got(VSeq("set", r.v), r.i) ELSE Err
      [] ty.c = "map" ->
            LET n == Length(b, i, ty.hi) IN
            IF n.k # "ok" \/ ~SizeOk(ty, n.v) THEN Err
            ELSE LET r == DecAll(<< Deref(ty.k), Deref(ty.t) >>, 2 * n.v, b, n.i, << >>) IN
                 IF r.k # "ok" THEN Err
                    ELSE LET q == [j \in 1..n.v |-> [k |-> r.v[2 * j - 1], x |-> r.v[2 * j]]] IN
                         IF Differing(Deref(ty.k), [j \in 1..n.v |-> q[j].k]) THEN Got(VSeq("map", q), r.i) ELSE Err
\* a whole value and nothing else
DecWhole(ty, b) == LET r == Dec(ty, b, 0) IN IF r.k = "ok" /\ r.i = Len(b) THEN Ok(r.v) ELSE Err
=============================================================================
