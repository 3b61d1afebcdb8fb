-------------------------------- MODULE SOwn --------------------------------
(* The types which the crate publishes for its own data (libraries Std and    *)
(* StrictTypes), and the values which stored objects are under these types.   *)
(* References are by name ("tn") or hold a definition ("em").                 *)
EXTENDS SVal, TLC
A == INSTANCE SArt

\* ---- the published definitions ---------------------------------------------------
T(n) == [r |-> "tn", name |-> n]
Em(ty) == [r |-> "em", ty |-> ty]
P(p) == Em([c |-> "prim", p |-> p])
SzNum(n) == LEOf(n, 8)
Lst(r, lo, hi) == Em([c |-> "list", t |-> r, lo |-> SzNum(lo), hi |-> hi])
SetOf(r, lo, hi) == Em([c |-> "set", t |-> r, lo |-> SzNum(lo), hi |-> hi])
MapOf(k, t, lo, hi) == Em([c |-> "map", k |-> k, t |-> t, lo |-> SzNum(lo), hi |-> hi])
Bytes32 == Em([c |-> "array", t |-> P(64), len |-> 32])
Rec(q) == [c |-> "struct", f |-> [i \in 1..Len(q) |-> [n |-> q[i][1], t |-> q[i][2]]]]
Tup(q) == [c |-> "tuple", f |-> q]
\* a variant holds nothing, or the tuple of its fields
Alt(q) == [c |-> "union", v |-> [i \in 1..Len(q) |-> [g |-> q[i][1], n |-> q[i][2], t |-> IF Len(q[i]) = 2 THEN P(0) ELSE Em(Tup(q[i][3]))]]]
OptOf(r) == Em(Alt(<< << 0, "none" >>, << 1, "some", << r >> >> >>))
M8 == LEOf(255, 8)
M16 == LEOf(65535, 8)
M24 == LEOf(16777215, 8)
M32 == << 255, 255, 255, 255, 0, 0, 0, 0 >>
\* characters
Digits == << "zero", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine" >>
Chr(g) == [g |-> g, n |-> IF g < 58 THEN Digits[g - 47] ELSE IF g = 95 THEN "lodash" ELSE IF g < 91 THEN "_" \o BytesStr(<< g >>) ELSE BytesStr(<< g >>)]
CharsOf(S) == [c |-> "enum", v |-> LET q == SortTags({ [g |-> g, n |-> Chr(g).n] : g \in S }) IN q]
Caps == 65..90
Small == 97..122
Ident1(first) == Tup(<< Em(Tup(<< T(first), Lst(T("AlphaNumLodash"), 0, LEOf(99, 8)) >>)) >>)
\* the language of types, over references of the form X; the definitions they may hold in line are named I
TypesOver(X, ref) ==
    ("Ty" \o X) :> Alt(<< << 0, "primitive", << T("Primitive") >> >>, << 1, "unicode" >>, << 3, "enum", << T("EnumVariants") >> >>,
                          << 4, "union", << T("UnionVariants" \o X) >> >>, << 5, "tuple", << T("UnnamedFields" \o X) >> >>, << 6, "struct", << T("NamedFields" \o X) >> >>,
                          << 7, "array", << ref, P(2) >> >>, << 8, "list", << ref, T("Sizing") >> >>,
                          << 9, "set", << ref, T("Sizing") >> >>, << 10, "map", << ref, ref, T("Sizing") >> >> >>)
    @@ ("UnionVariants" \o X) :> Tup(<< MapOf(P(1), T("VariantInfo" \o X), 0, M8) >>)
    @@ ("VariantInfo" \o X) :> Rec(<< << "name", T("VariantName") >>, << "ty", ref >> >>)
    @@ ("UnnamedFields" \o X) :> Tup(<< Lst(ref, 1, M8) >>)
    @@ ("NamedFields" \o X) :> Tup(<< Lst(T("Field" \o X), 1, M8) >>)
    @@ ("Field" \o X) :> Rec(<< << "name", T("FieldName") >>, << "ty", ref >> >>)
RefTo(X, in) == X :> (IF in = "" THEN Alt(<< << 0, "named", << T("SemId") >> >>, << 1, "extern", << T("ExternRef") >> >> >>)
                      ELSE Alt(<< << 0, "inline", << T(in) >> >>, << 1, "named", << T("SemId") >> >>, << 2, "extern", << T("ExternRef") >> >> >>))
Schema ==
    "AlphaCapsLodash" :> CharsOf(Caps \cup {95}) @@ "AlphaSmallLodash" :> CharsOf(Small \cup {95})
    @@ "AlphaLodash" :> CharsOf(Caps \cup Small \cup {95}) @@ "AlphaNumLodash" :> CharsOf(Caps \cup Small \cup {95} \cup 48..57)
    @@ "Ident" :> Ident1("AlphaLodash") @@ "LibName" :> Ident1("AlphaCapsLodash") @@ "TypeName" :> Ident1("AlphaCapsLodash")
    @@ "FieldName" :> Ident1("AlphaSmallLodash") @@ "VariantName" :> Ident1("AlphaSmallLodash")
    @@ "SemId" :> Tup(<< Bytes32 >>) @@ "TypeLibId" :> Tup(<< Bytes32 >>) @@ "TypeSysId" :> Tup(<< Bytes32 >>)
    @@ "Primitive" :> Tup(<< P(1) >>)
    @@ "Sizing" :> Rec(<< << "min", P(8) >>, << "max", P(8) >> >>)
    @@ "Variant" :> Rec(<< << "name", T("VariantName") >>, << "tag", P(1) >> >>)
    @@ "EnumVariants" :> Tup(<< SetOf(T("Variant"), 1, M8) >>)
    @@ "ExternRef" :> Rec(<< << "libId", T("TypeLibId") >>, << "semId", T("SemId") >> >>)
    @@ RefTo("LibRef", "TyInlineRef") @@ RefTo("InlineRef", "TyInlineRef1") @@ RefTo("InlineRef1", "TyInlineRef2") @@ RefTo("InlineRef2", "")
    @@ TypesOver("LibRef", T("LibRef")) @@ TypesOver("InlineRef", T("InlineRef")) @@ TypesOver("InlineRef1", T("InlineRef1"))
    @@ TypesOver("InlineRef2", T("InlineRef2")) @@ TypesOver("SemId", T("SemId"))
    @@ "Dependency" :> Rec(<< << "id", T("TypeLibId") >>, << "name", T("LibName") >> >>)
    @@ "TypeLib" :> Rec(<< << "name", T("LibName") >>, << "dependencies", SetOf(T("Dependency"), 0, M8) >>,
                           << "externTypes", MapOf(T("LibName"), MapOf(T("SemId"), T("TypeName"), 0, M16), 0, M8) >>,
                           << "types", MapOf(T("TypeName"), T("TyLibRef"), 1, M16) >> >>)
    @@ "TypeSystem" :> Tup(<< MapOf(T("SemId"), T("TySemId"), 0, M24) >>)
    @@ "TypeFqn" :> Rec(<< << "lib", T("LibName") >>, << "name", T("TypeName") >> >>)
    @@ "TypeSymbol" :> Rec(<< << "id", T("SemId") >>, << "fqn", OptOf(T("TypeFqn")) >> >>)
    @@ "Symbols" :> Rec(<< << "libs", SetOf(T("Dependency"), 0, M16) >>, << "symbols", SetOf(T("TypeSymbol"), 0, M24) >> >>)
    @@ "SymbolicSys" :> Rec(<< << "symbols", T("Symbols") >>, << "types", T("TypeSystem") >> >>)
    @@ "SymbolRef" :> Rec(<< << "libName", T("LibName") >>, << "tyName", T("TypeName") >>, << "libId", T("TypeLibId") >>, << "semId", T("SemId") >> >>)
    @@ "ItemCase" :> Alt(<< << 0, "unnamedField", << P(1) >> >>, << 1, "namedField", << P(1), T("FieldName") >> >>,
                            << 2, "unionVariant", << P(1), T("VariantName") >> >>, << 16, "arrayItem" >>, << 17, "listItem" >>,
                            << 18, "setItem" >>, << 19, "mapKey" >>, << 20, "mapValue" >> >>)
    @@ "NestedCase" :> Alt(<< << 0, "newType", << OptOf(T("TypeFqn")) >> >>, << 1, "option" >>, << 16, "byteStr" >>,
                              << 17, "asciiStr", << OptOf(T("TypeFqn")) >> >>, << 18, "uniStr" >>,
                              << 19, "rStr", << OptOf(T("TypeFqn")), OptOf(T("TypeFqn")), T("Sizing") >> >> >>)
    @@ "TypeInfo" :> Rec(<< << "depth", P(4) >>, << "ty", T("TySemId") >>, << "fqn", OptOf(T("TypeFqn")) >>, << "item", OptOf(T("ItemCase")) >>,
                            << "nested", Lst(T("NestedCase"), 0, M8) >> >>)
    @@ "MemoryLayout" :> Rec(<< << "items", Lst(T("TypeInfo"), 0, M32) >> >>)
ByName(r) == IF r.r = "em" THEN r.ty ELSE Schema[r.name]
\* identifiers of the published types, found bottom up
RECURSIVE Defined(_, _)
Defined(S, ty) == \A i \in 1..Len(Refs(ty)) : LET r == Refs(ty)[i] IN IF r.r = "em" THEN Defined(S, r.ty) ELSE r.name \in S
RECURSIVE Named(_, _)
Named(ids, ty) == MapRefs(ty, LAMBDA r : IF r.r = "em" THEN Em(Named(ids, r.ty)) ELSE [r |-> "nm", id |-> ids[r.name]])
RECURSIVE Identify(_)
Identify(ids) ==
    LET new == { n \in DOMAIN Schema \ DOMAIN ids : Defined(DOMAIN ids, Schema[n]) } IN
    IF new = {} THEN ids ELSE Identify([n \in new |-> SemId(n, Named(ids, Schema[n]))] @@ ids)
Ids == Identify(<< >>)
TypeOf(kind) == Schema[CASE kind = "lib" -> "TypeLib" [] kind = "sys" -> "TypeSystem" [] kind = "ssys" -> "SymbolicSys" [] kind = "layout" -> "MemoryLayout"]

\* ---- stored form of a layout: entries as in SLayout, with definitions ----------------
QName(f) == IF f.lib = "" THEN << 0 >> ELSE << 1 >> \o LenStr(f.lib) \o LenStr(f.name)
ItemBin(it) ==
    CASE it.k = "none" -> << 0 >>
      [] it.k = "pos" -> << 1, 0, it.g >>
      [] it.k = "field" -> << 1, 1, it.g >> \o LenStr(it.n)
      [] it.k = "variant" -> << 1, 2, it.g >> \o LenStr(it.n)
      [] it.k = "array" -> << 1, 16 >> [] it.k = "list" -> << 1, 17 >> [] it.k = "set" -> << 1, 18 >>
      [] it.k = "key" -> << 1, 19 >> [] it.k = "value" -> << 1, 20 >>
MarkBin(m) ==
    CASE m.k = "new" -> << 0 >> \o QName(m.f) [] m.k = "opt" -> << 1 >> [] m.k = "bytes" -> << 16 >>
      [] m.k = "ascii" -> << 17 >> \o QName(m.f) [] m.k = "uni" -> << 18 >>
      [] m.k = "rstr" -> << 19 >> \o QName(m.first) \o QName(m.rest) \o m.lo \o m.hi
EntryBin(e) == LEOf(e.depth, 4) \o A!TyBin(e.ty, 0) \o QName(e.f) \o ItemBin(e.item)
               \o << Len(e.w) >> \o Flat([i \in 1..Len(e.w) |-> MarkBin(e.w[i])])
Bin(kind, o) == IF kind = "layout" THEN LEOf(Len(o), 4) \o Flat([i \in 1..Len(o) |-> EntryBin(o[i])]) ELSE A!Bin(kind, o)

\* ---- the value which an object is under its published type -----------------------------
Txt(s) == VSeq("tuple", << VStr(StrBytes(s)) >>)
U(p, n) == Num(p, LEOf(n, Sz(p)))
Id(h) == VSeq("tuple", << VBytes(HexBytes(h)) >>)
RecV(q) == [v |-> "struct", f |-> [i \in 1..Len(q) |-> [n |-> q[i][1], x |-> q[i][2]]]]
MapV(q) == [v |-> "map", f |-> [i \in 1..Len(q) |-> [k |-> q[i][1], x |-> q[i][2]]]]
Each2(q, F(_)) == [i \in 1..Len(q) |-> F(q[i])]
Vr(n, q) == VUnion(n, IF q = << >> THEN VUnit ELSE VSeq("tuple", q))
Opt(absent, x) == IF absent THEN Vr("none", << >>) ELSE Vr("some", << x >>)
SizeV(ty) == RecV(<< << "min", Num(8, ty.lo) >>, << "max", Num(8, ty.hi) >> >>)
New(x) == VSeq("tuple", << x >>)
RECURSIVE TyV(_)
RefV(r) == CASE r.r = "id" -> Id(r.id)
             [] r.r = "nm" -> Vr("named", << Id(r.id) >>)
             [] r.r = "ex" -> Vr("extern", << RecV(<< << "libId", Id(r.lib) >>, << "semId", Id(r.id) >> >>) >>)
             [] r.r = "in" -> Vr("inline", << TyV(r.ty) >>)
LabelV(n, what, x) == RecV(<< << "name", Txt(n) >>, << what, x >> >>)
TyV(ty) ==
    CASE ty.c = "prim" -> Vr("primitive", << New(U(1, ty.p)) >>)
      [] ty.c = "uni" -> Vr("unicode", << >>)
      [] ty.c = "enum" -> Vr("enum", << New(VSeq("set", Each2(ty.v, LAMBDA x : LabelV(x.n, "tag", U(1, x.g))))) >>)
      [] ty.c = "union" -> Vr("union", << New(MapV(Each2(ty.v, LAMBDA x : << U(1, x.g), LabelV(x.n, "ty", RefV(x.t)) >>))) >>)
      [] ty.c = "tuple" -> Vr("tuple", << New(VSeq("list", Each2(ty.f, LAMBDA x : RefV(x)))) >>)
      [] ty.c = "struct" -> Vr("struct", << New(VSeq("list", Each2(ty.f, LAMBDA x : LabelV(x.n, "ty", RefV(x.t))))) >>)
      [] ty.c = "array" -> Vr("array", << RefV(ty.t), U(2, ty.len) >>)
      [] ty.c \in {"list", "set"} -> Vr(ty.c, << RefV(ty.t), SizeV(ty) >>)
      [] ty.c = "map" -> Vr("map", << RefV(ty.k), RefV(ty.t), SizeV(ty) >>)
DepsV(q) == VSeq("set", Each2(q, LAMBDA d : RecV(<< << "id", Id(d.id) >>, << "name", Txt(d.name) >> >>)))
SysV(q) == New(MapV(Each2(q, LAMBDA t : << Id(t.id), TyV(t.ty) >>)))
FqnV(f) == Opt(f.lib = "", RecV(<< << "lib", Txt(f.lib) >>, << "name", Txt(f.name) >> >>))
ItemV(it) ==
    Opt(it.k = "none",
        CASE it.k = "pos" -> Vr("unnamedField", << U(1, it.g) >>)
          [] it.k = "field" -> Vr("namedField", << U(1, it.g), Txt(it.n) >>)
          [] it.k = "variant" -> Vr("unionVariant", << U(1, it.g), Txt(it.n) >>)
          [] it.k = "key" -> Vr("mapKey", << >>) [] it.k = "value" -> Vr("mapValue", << >>)
          [] OTHER -> Vr(it.k \o "Item", << >>))
MarkV(m) ==
    CASE m.k = "new" -> Vr("newType", << FqnV(m.f) >>) [] m.k = "opt" -> Vr("option", << >>) [] m.k = "bytes" -> Vr("byteStr", << >>)
      [] m.k = "ascii" -> Vr("asciiStr", << FqnV(m.f) >>) [] m.k = "uni" -> Vr("uniStr", << >>)
      [] m.k = "rstr" -> Vr("rStr", << FqnV(m.first), FqnV(m.rest), SizeV(m) >>)
View(kind, o) ==
    CASE kind = "lib" -> RecV(<< << "name", Txt(o.name) >>, << "dependencies", DepsV(o.deps) >>,
                                 << "externTypes", MapV(Each2(o.ext, LAMBDA e : << Txt(e.lib), MapV(Each2(e.types, LAMBDA t : << Id(t.id), Txt(t.n) >>)) >>)) >>,
                                 << "types", MapV(Each2(o.types, LAMBDA t : << Txt(t.n), TyV(t.ty) >>)) >> >>)
      [] kind = "sys" -> SysV(o.types)
      [] kind = "ssys" -> RecV(<< << "symbols", RecV(<< << "libs", DepsV(o.libs) >>,
                                      << "symbols", VSeq("set", Each2(o.syms, LAMBDA s : RecV(<< << "id", Id(s.id) >>, << "fqn", FqnV(s) >> >>))) >> >>) >>,
                                  << "types", SysV(o.types) >> >>)
      [] kind = "layout" -> RecV(<< << "items", VSeq("list", Each2(o, LAMBDA e :
            RecV(<< << "depth", U(4, e.depth) >>, << "ty", TyV(e.ty) >>, << "fqn", FqnV(e.f) >>, << "item", ItemV(e.item) >>,
                    << "nested", VSeq("list", Each2(e.w, LAMBDA m : MarkV(m))) >> >>))) >> >>)
=============================================================================
