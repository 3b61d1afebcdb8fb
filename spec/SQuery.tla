------------------------------- MODULE SQuery -------------------------------
(* Questions about one definition: its class, what it is, its components by   *)
(* position, its variants and fields by name, tag and position.  An answer    *)
(* that may be missing is a sequence of at most one element.                  *)
EXTENDS STypes

RefUnit(r) == (r.r \in {"in", "em"} /\ r.ty = UnitTy) \/ (r.r = "id" /\ r.id = UnitId)
RefUni(r) == (r.r \in {"in", "em"} /\ r.ty = UniTy) \/ (r.r = "id" /\ r.id = UniId)
Option(ty) == /\ ty.c = "union" /\ Len(ty.v) = 2
              /\ ty.v[1].n = "none" /\ ty.v[1].g = 0 /\ RefUnit(ty.v[1].t)
              /\ ty.v[2].n = "some" /\ ty.v[2].g = 1
Newtype(ty) == ty.c = "tuple" /\ Len(ty.f) = 1
Compound(ty) == (ty.c = "tuple" /\ Len(ty.f) > 1) \/ ty.c \in {"struct", "enum"} \/ (ty.c = "union" /\ ~Option(ty))
Simple(ty) == ty.c \in {"prim", "uni"}
Collection(ty) == ty.c \in {"array", "list", "set", "map"}
RefCompound(r) == r.r \in {"in", "em"} /\ Compound(r.ty)
\* only references of symbolic libraries hold a whole definition of their own kind
RefTy(r) == IF r.r = "em" THEN << r.ty >> ELSE << >>
RECURSIVE CharEnum(_)
CharEnum(ty) == CASE ty.c = "enum" -> \A i \in 1..Len(ty.v) : ty.v[i].g \in 32..127
                  [] ty.c = "tuple" -> RefTy(ty.f[1]) # << >> /\ CharEnum(ty.f[1].ty)
                  [] OTHER -> FALSE
ClsOf(ty) == [prim |-> "primitive", uni |-> "unicode", enum |-> "enum", union |-> "union", struct |-> "struct", tuple |-> "tuple",
              array |-> "array", list |-> "list", set |-> "set", map |-> "map"][ty.c]
Is_(ty) == [charenum |-> CharEnum(ty), compound |-> Compound(ty), primitive |-> Simple(ty), collection |-> Collection(ty), newtype |-> Newtype(ty),
            bytearray |-> ty.c = "array" /\ IsByteRef(ty.t), option |-> Option(ty), byte |-> ty \in {ByteTy, U8Ty}, unicode |-> ty = UniTy]
InOption(ty) == IF Option(ty) THEN << ty.v[2].t >> ELSE << >>
Wrapped(ty) == IF Newtype(ty) THEN RefTy(ty.f[1]) ELSE << >>

\* ---- components by position (counted from 0), with their labels ----------------------------
Case(ty, i) ==
    CASE ty.c = "union" -> [k |-> "variant", g |-> ty.v[i].g, n |-> ty.v[i].n]
      [] ty.c = "struct" -> [k |-> "field", i |-> i - 1, n |-> ty.f[i].n]
      [] ty.c = "tuple" -> [k |-> "pos", i |-> i - 1]
      [] ty.c = "map" -> [k |-> IF i = 1 THEN "key" ELSE "value"]
      [] OTHER -> [k |-> ty.c]
Components(ty) == [i \in 1..Len(Refs(ty)) |-> [t |-> Refs(ty)[i], c |-> Case(ty, i)]]
At(ty, p) == IF p < Len(Refs(ty)) THEN << Refs(ty)[p + 1] >> ELSE << >>
CaseAt(ty, p) == IF p < Len(Refs(ty)) THEN << Case(ty, p + 1) >> ELSE << >>

\* ---- variants and fields ---------------------------------------------------------------------
First(q, P(_)) == LET S == { i \in DOMAIN q : P(q[i]) } IN IF S = {} THEN << >> ELSE << CHOOSE i \in S : \A j \in S : i <= j >>
Vars(ty) == IF ty.c \in {"enum", "union"} THEN ty.v ELSE << >>
ByTag(ty, g) == LET i == First(Vars(ty), LAMBDA x : x.g = g) IN IF i = << >> THEN << >> ELSE << ty.v[i[1]] >>
ByName(ty, n) == LET i == First(Vars(ty), LAMBDA x : x.n = n) IN IF i = << >> THEN << >> ELSE << ty.v[i[1]] >>
Opt(q, F(_)) == IF q = << >> THEN << >> ELSE << F(q[1]) >>
Label(v) == [n |-> v.n, g |-> v.g]
FieldTy(ty, n) == IF ty.c # "struct" THEN << >> ELSE LET i == First(ty.f, LAMBDA x : x.n = n) IN IF i = << >> THEN << >> ELSE << ty.f[i[1]].t >>
=============================================================================
