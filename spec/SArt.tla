-------------------------------- MODULE SArt --------------------------------
(* Stored forms of libraries, symbolic libraries, type systems and symbolic   *)
(* type systems: the canonical bytes of an object, and what loading may give. *)
EXTENDS SLib

LE64(n) == LEOf(n, 8)
\* ---- definitions -----------------------------------------------------------------
\* d: how many inline definitions surround the reference (the innermost references of
\* a compiled library have no "inline" case)
RECURSIVE TyBin(_, _)
RefBin(r, d) ==
    CASE r.r = "id" -> HexBytes(r.id)
      [] r.r \in {"in", "em"} -> << 0 >> \o TyBin(r.ty, d + 1)
      [] r.r = "nm" -> << IF d = 3 THEN 0 ELSE 1 >> \o HexBytes(r.id)
      [] r.r = "ex" -> << IF d = 3 THEN 1 ELSE 2 >> \o HexBytes(r.lib) \o HexBytes(r.id)
      [] r.r = "tn" -> << 1 >> \o LenStr(r.name)
      [] r.r = "tx" -> << 2 >> \o LenStr(r.lib) \o LenStr(r.name) \o HexBytes(r.lid) \o HexBytes(r.id)
TyBin(ty, d) ==
    CASE ty.c = "prim" -> << 0, ty.p >>
      [] ty.c = "uni" -> << 1 >>
      [] ty.c = "enum" -> << 3, Len(ty.v) >> \o Flat([i \in 1..Len(ty.v) |-> LenStr(ty.v[i].n) \o << ty.v[i].g >>])
      [] ty.c = "union" -> << 4, Len(ty.v) >> \o Flat([i \in 1..Len(ty.v) |-> << ty.v[i].g >> \o LenStr(ty.v[i].n) \o RefBin(ty.v[i].t, d)])
      [] ty.c = "tuple" -> << 5, Len(ty.f) >> \o Flat([i \in 1..Len(ty.f) |-> RefBin(ty.f[i], d)])
      [] ty.c = "struct" -> << 6, Len(ty.f) >> \o Flat([i \in 1..Len(ty.f) |-> LenStr(ty.f[i].n) \o RefBin(ty.f[i].t, d)])
      [] ty.c = "array" -> << 7 >> \o RefBin(ty.t, d) \o LE16(ty.len)
      [] ty.c = "list" -> << 8 >> \o RefBin(ty.t, d) \o ty.lo \o ty.hi
      [] ty.c = "set" -> << 9 >> \o RefBin(ty.t, d) \o ty.lo \o ty.hi
      [] ty.c = "map" -> << 10 >> \o RefBin(ty.k, d) \o RefBin(ty.t, d) \o ty.lo \o ty.hi

\* ---- objects -----------------------------------------------------------------------
DepBin(q) == Flat([i \in 1..Len(q) |-> HexBytes(q[i].id) \o LenStr(q[i].name)])
ExtBin(q) == << Len(q) >> \o Flat([i \in 1..Len(q) |->
    LenStr(q[i].lib) \o LE16(Len(q[i].types))
    \o Flat([j \in 1..Len(q[i].types) |-> HexBytes(q[i].types[j].id) \o LenStr(q[i].types[j].n)])])
HeadBin(o) == LenStr(o.name) \o << Len(o.deps) >> \o DepBin(o.deps) \o ExtBin(o.ext)
NamedBin(q) == Flat([i \in 1..Len(q) |-> LenStr(q[i].n) \o TyBin(q[i].ty, 0)])
SysBin(q) == LE24(Len(q)) \o Flat([i \in 1..Len(q) |-> HexBytes(q[i].id) \o TyBin(q[i].ty, 0)])
SymBin(q) == LE24(Len(q)) \o Flat([i \in 1..Len(q) |-> HexBytes(q[i].id)
    \o (IF q[i].lib = "" THEN << 0 >> ELSE << 1 >> \o LenStr(q[i].lib) \o LenStr(q[i].name))])
\* kinds: "lib", "sym" records as in SLib; "sys" [types]; "ssys" [libs, syms, types]
Bin(kind, o) ==
    CASE kind = "lib" -> HeadBin(o) \o LE16(Len(o.types)) \o NamedBin(o.types)
      [] kind = "sym" -> HeadBin(o) \o LE64(Len(o.types)) \o NamedBin(o.types)
      [] kind = "sys" -> SysBin(o.types)
      [] kind = "ssys" -> LE16(Len(o.libs)) \o DepBin(o.libs) \o SymBin(o.syms) \o SysBin(o.types)
Ident(kind, o) ==
    CASE kind = "lib" -> LibId(o)
      [] kind = "sym" -> ""
      [] OTHER -> SysId({ o.types[i].id : i \in 1..Len(o.types) })
IdKind(kind) == IF kind = "lib" THEN "stl" ELSE "sts"

\* ---- well-formed objects: what can be held at all --------------------------------------
Sorted(q, LT(_, _)) == \A i \in 1..Len(q) - 1 : LT(q[i], q[i + 1])
Distinct(q) == \A i, j \in 1..Len(q) : q[i] = q[j] => i = j
RECURSIVE TyOk(_)
TyOk(ty) ==
    /\ ty.c \in {"enum", "union"} => /\ Len(ty.v) > 0
                                     /\ Distinct([i \in 1..Len(ty.v) |-> ty.v[i].n])
                                     /\ Sorted(ty.v, LAMBDA a, b : a.g < b.g)
    /\ ty.c \in {"tuple", "struct"} => Len(ty.f) > 0
    /\ LET q == Refs(ty) IN \A i \in 1..Len(q) : q[i].r \in {"in", "em"} => TyOk(q[i].ty)
\* the deepest nesting of inline definitions
RECURSIVE TyDepth(_)
TyDepth(ty) == LET q == Refs(ty)
                   D == { IF q[i].r \in {"in", "em"} THEN 1 + TyDepth(q[i].ty) ELSE 0 : i \in 1..Len(q) } \cup {0}
               IN CHOOSE d \in D : \A e \in D : e <= d
MaxDepth(o) == LET D == { TyDepth(o.types[i].ty) : i \in 1..Len(o.types) } \cup {0} IN CHOOSE d \in D : \A e \in D : e <= d
ObjOk(kind, o) ==
    /\ \A i \in 1..Len(o.types) : TyOk(o.types[i].ty)
    /\ kind \in {"lib", "sym"} =>
         /\ Len(o.types) > 0
         /\ Sorted(o.types, LAMBDA a, b : StrLT(a.n, b.n))
         /\ Sorted(o.deps, LAMBDA a, b : StrLT(a.id, b.id))
         /\ Sorted(o.ext, LAMBDA a, b : StrLT(a.lib, b.lib))
         /\ \A i \in 1..Len(o.ext) : Sorted(o.ext[i].types, LAMBDA a, b : StrLT(a.id, b.id))
    /\ kind \in {"sys", "ssys"} => Sorted(o.types, LAMBDA a, b : StrLT(a.id, b.id))
=============================================================================
