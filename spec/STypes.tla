------------------------------- MODULE STypes -------------------------------
(* The type language and its identifiers.                                     *)
(*                                                                            *)
(* A type definition is a record with class field c:                          *)
(*   [c:"prim", p] [c:"uni"] [c:"enum", v:<<[n,g]>>] [c:"union", v:<<[n,g,t]>>]*)
(*   [c:"tuple", f:<<ref>>] [c:"struct", f:<<[n,t]>>] [c:"array", t, len]      *)
(*   [c:"list"|"set", t, lo, hi] [c:"map", k, t, lo, hi]                       *)
(* References to other types are records with field r:                        *)
(*   "id" (type system), "in"/"nm"/"ex" (compiled library: inline definition,  *)
(*   local id, foreign lib+id), "em"/"tn"/"tx" (symbolic library: embedded     *)
(*   definition, local name, foreign symbol).                                  *)
(* lo, hi are 64-bit numbers as 8 little-endian bytes.                        *)
EXTENDS SBytes, FiniteSets

Range(q) == { q[i] : i \in DOMAIN q }

\* ---- the references a definition makes, in declaration order -----------------
Refs(ty) ==
    CASE ty.c = "union" -> [i \in 1..Len(ty.v) |-> ty.v[i].t]
      [] ty.c = "tuple" -> ty.f
      [] ty.c = "struct" -> [i \in 1..Len(ty.f) |-> ty.f[i].t]
      [] ty.c \in {"array", "list", "set"} -> << ty.t >>
      [] ty.c = "map" -> << ty.k, ty.t >>
      [] OTHER -> << >>

\* ---- the same definition with every reference replaced -------------------------
MapRefs(ty, F(_)) ==
    CASE ty.c = "union" -> [ty EXCEPT !.v = [i \in 1..Len(ty.v) |-> [ty.v[i] EXCEPT !.t = F(ty.v[i].t)]]]
      [] ty.c = "tuple" -> [ty EXCEPT !.f = [i \in 1..Len(ty.f) |-> F(ty.f[i])]]
      [] ty.c = "struct" -> [ty EXCEPT !.f = [i \in 1..Len(ty.f) |-> [ty.f[i] EXCEPT !.t = F(ty.f[i].t)]]]
      [] ty.c \in {"array", "list", "set"} -> [ty EXCEPT !.t = F(ty.t)]
      [] ty.c = "map" -> [[ty EXCEPT !.k = F(ty.k)] EXCEPT !.t = F(ty.t)]
      [] OTHER -> ty

\* ---- semantic commitment ---------------------------------------------------------
RECURSIVE CommitTy(_)
CommitRef(r) ==
    CASE r.r \in {"in", "em"} -> CommitTy(r.ty)
      [] r.r = "tn" -> LenStr(r.name)
      [] OTHER -> HexBytes(r.id)
CommitTy(ty) ==
    CASE ty.c = "prim" -> << 0, ty.p >>
      [] ty.c = "uni" -> << 1 >>
      [] ty.c = "enum" -> << 3 >> \o Flat([i \in 1..Len(ty.v) |-> LenStr(ty.v[i].n) \o << ty.v[i].g >>])
      [] ty.c = "union" -> << 4 >> \o Flat([i \in 1..Len(ty.v) |-> LenStr(ty.v[i].n) \o << ty.v[i].g >> \o CommitRef(ty.v[i].t)])
      [] ty.c = "struct" -> << 5 >> \o Flat([i \in 1..Len(ty.f) |-> LenStr(ty.f[i].n) \o CommitRef(ty.f[i].t)])
      [] ty.c = "tuple" -> << 6 >> \o Flat([i \in 1..Len(ty.f) |-> CommitRef(ty.f[i])])
      [] ty.c = "array" -> << 7 >> \o CommitRef(ty.t) \o LE16(ty.len)
      [] ty.c = "list" -> << 8 >> \o CommitRef(ty.t) \o ty.lo \o ty.hi
      [] ty.c = "set" -> << 9 >> \o CommitRef(ty.t) \o ty.lo \o ty.hi
      [] ty.c = "map" -> << 10 >> \o CommitRef(ty.k) \o CommitRef(ty.t) \o ty.lo \o ty.hi

TypTag == SHA256(StrBytes("urn:ubideco:strict-types:typ:v01"))
LibTag == SHA256(StrBytes("urn:ubideco:strict-types:lib:v01"))
SysTag == SHA256(StrBytes("urn:ubideco:strict-types:sys:v01"))

\* identifier of a named / unnamed definition (hexadecimal)
SemId(name, ty) == BytesHex(SHA256(TypTag \o TypTag \o LenStr(name) \o CommitTy(ty)))
SemIdU(ty) == BytesHex(SHA256(TypTag \o TypTag \o CommitTy(ty)))

\* identifier of a library: its name, dependency ids in order, type ids in name order
LibId(lib) ==
    BytesHex(SHA256(LibTag \o LibTag \o LenStr(lib.name)
        \o << Len(lib.deps) >> \o Flat([i \in 1..Len(lib.deps) |-> HexBytes(lib.deps[i].id)])
        \o LE16(Len(lib.types)) \o Flat([i \in 1..Len(lib.types) |-> HexBytes(SemId(lib.types[i].n, lib.types[i].ty))])))

\* identifier of a type system: the sorted type ids
SysId(ids) ==
    BytesHex(SHA256(SysTag \o SysTag \o LE24(Cardinality(ids))
        \o Flat([i \in 1..Cardinality(ids) |-> HexBytes(SortStr(ids)[i])])))

\* ---- frequently used definitions ---------------------------------------------------
UnitTy == [c |-> "prim", p |-> 0]
ByteTy == [c |-> "prim", p |-> 64]
U8Ty == [c |-> "prim", p |-> 1]
UniTy == [c |-> "uni"]
ByteId == SemIdU(ByteTy)
U8Id == SemIdU(U8Ty)
UniId == SemIdU(UniTy)
UnitId == SemIdU(UnitTy)
IsByteRef(r) == IF r.r \in {"in", "em"} THEN r.ty \in {ByteTy, U8Ty} ELSE r.r = "id" /\ r.id \in {ByteId, U8Id}

\* variants are kept in tag order, whatever order they were declared in
RECURSIVE SortTags(_)
SortTags(vs) ==
    IF vs = {} THEN << >>
    ELSE LET m == CHOOSE x \in vs : \A y \in vs : x.g <= y.g IN << m >> \o SortTags(vs \ {m})
=============================================================================
