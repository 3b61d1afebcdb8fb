------------------------------- MODULE SLayout -------------------------------
(* The component tree of a type and its printed memory layout.                *)
(*                                                                            *)
(* An entry is [depth, id, f, item, w]: the definition listed, its qualified  *)
(* name, its label in the enclosing entry, and the annotations folded into it:*)
(* wrappers (one-element tuples), options and strings.                        *)
(* o = [types, syms] is a complete type system with its symbols.              *)
EXTENDS SList

\* one more, up to the largest 64-bit number
RECURSIVE Carry(_, _)
Carry(b, i) == IF i > 8 THEN b ELSE IF b[i] = 255 THEN Carry([b EXCEPT ![i] = 0], i + 1) ELSE [b EXCEPT ![i] = @ + 1]
SatInc(b) == IF \A i \in 1..8 : b[i] = 255 THEN b ELSE Carry(b, 1)

NoName == [lib |-> "", name |-> ""]
Defs(o) == [id \in { o.types[i].id : i \in 1..Len(o.types) } |-> o.types[CHOOSE i \in 1..Len(o.types) : o.types[i].id = id].ty]
\* a type of several names is shown under the first of them
Names(o) == [id \in { o.types[i].id : i \in 1..Len(o.types) } |->
               LET M == { i \in 1..Len(o.syms) : o.syms[i].id = id } IN
               IF M = {} THEN NoName ELSE LET s == o.syms[CHOOSE i \in M : \A j \in M : i <= j] IN [lib |-> s.lib, name |-> s.name]]

NoItem == [k |-> "none"]
Items(ty) ==
    CASE ty.c = "tuple" -> [i \in 1..Len(ty.f) |-> [k |-> "pos", g |-> i - 1]]
      [] ty.c = "struct" -> [i \in 1..Len(ty.f) |-> [k |-> "field", g |-> i - 1, n |-> ty.f[i].n]]
      [] ty.c = "union" -> [i \in 1..Len(ty.v) |-> [k |-> "variant", g |-> ty.v[i].g, n |-> ty.v[i].n]]
      [] ty.c = "map" -> << [k |-> "key"], [k |-> "value"] >>
      [] ty.c \in {"array", "list", "set"} -> << [k |-> ty.c] >>
      [] OTHER -> << >>
CharTags(ty) == ty.c = "enum" /\ \A i \in 1..Len(ty.v) : ty.v[i].g \in 32..127
ByteArray(ty) == ty.c = "array" /\ ty.t.id \in {ByteId, U8Id}
RStr(D, ty) == /\ ty.c = "tuple" /\ Len(ty.f) = 2 /\ CharTags(D[ty.f[1].id])
               /\ LET r == D[ty.f[2].id] IN r.c = "list" /\ CharTags(D[r.t.id])
Wrapper(ty) == (ty.c = "tuple" /\ Len(ty.f) = 1) \/ (ty.c = "union" /\ IsOpt(ty))
\* what is inside a wrapper, and what remains of the wrapper itself
Inside(ty) == IF ty.c = "tuple" THEN ty.f[1].id ELSE ty.v[2].t.id
Mark(ty, f) == IF ty.c = "tuple" THEN [k |-> "new", f |-> f] ELSE [k |-> "opt"]
\* lists and tuples which are strings
StrMark(D, N, ty) ==
    IF RStr(D, ty) THEN LET r == D[ty.f[2].id] IN << [k |-> "rstr", first |-> N[ty.f[1].id], rest |-> N[r.t.id], lo |-> SatInc(r.lo), hi |-> SatInc(r.hi)] >>
    ELSE IF ty.c # "list" THEN << >>
    ELSE LET e == D[ty.t.id] IN
         IF CharTags(e) THEN << [k |-> "ascii", f |-> N[ty.t.id]] >>
         ELSE IF e \in {ByteTy, U8Ty} THEN << [k |-> "bytes"] >>
         ELSE IF e = UniTy THEN << [k |-> "uni"] >> ELSE << >>
Closed(D, N, ty) == ByteArray(ty) \/ StrMark(D, N, ty) # << >>
\* components listed below an entry
Parts(D, N, ty) ==
    IF Closed(D, N, ty) THEN << >> ELSE LET r == Refs(ty)
                                            it == Items(ty)
                                        IN [i \in 1..Len(r) |-> [id |-> r[i].id, item |-> it[i]]]
RECURSIVE Walk(_, _, _, _, _, _), WalkAll(_, _, _, _)
Walk(D, N, id, item, depth, w) ==
    LET ty == D[id] IN
    IF Wrapper(ty) THEN Walk(D, N, Inside(ty), item, depth, Append(w, Mark(ty, N[id])))
    ELSE << [depth |-> depth, id |-> id, f |-> N[id], item |-> item, w |-> w \o StrMark(D, N, ty)] >>
         \o WalkAll(D, N, Parts(D, N, ty), depth + 1)
WalkAll(D, N, q, depth) == IF q = << >> THEN << >> ELSE Walk(D, N, q[1].id, q[1].item, depth, << >>) \o WalkAll(D, N, Tail(q), depth)
Entries(o, root) == Walk(Defs(o), Names(o), root, NoItem, 0, << >>)

\* ---- text ---------------------------------------------------------------------
Cls(ty) ==
    CASE ty.c = "prim" -> "is" [] ty.c = "uni" -> "str" [] ty.c = "struct" -> "rec" [] OTHER -> ty.c
\* the last annotation which says so decides
Predicate(ty, w) ==
    LET S == { i \in 1..Len(w) : w[i].k \in {"ascii", "rstr", "bytes", "uni"} } IN
    IF S # {} THEN LET k == w[CHOOSE i \in S : \A j \in S : j <= i].k IN
                   (IF k = "bytes" THEN "bytes" ELSE IF k = "uni" THEN "str" ELSE "ascii")
    ELSE IF CharTags(ty) THEN "char" ELSE IF ByteArray(ty) THEN "bytes" ELSE Cls(ty)
TName(e) == IF e.f = NoName THEN "_" ELSE e.f.name
Subject(e) ==
    LET n == TName(e) IN
    CASE e.item.k = "pos" -> IF n = "_" THEN "_" \o DecN(e.item.g) ELSE n
      [] e.item.k \in {"field", "variant"} -> e.item.n
      [] e.item.k \in {"list", "set"} -> IF e.f = NoName THEN "element" ELSE n
      [] e.item.k \in {"key", "value"} -> e.item.k
      [] OTHER -> n
Max(n) == [i \in 1..8 |-> IF i <= n THEN 255 ELSE 0]
Bound(hi) == CASE hi = Max(1) -> "MAX8" [] hi = Max(2) -> "MAX16" [] hi = Max(3) -> "MAX24" [] hi = Max(4) -> "MAX32" [] hi = Max(8) -> "MAX64" [] OTHER -> DecNum(hi)
LenText(lo, hi) == "len " \o DecNum(lo) \o ".." \o Bound(hi)
If(c, s) == IF c THEN << s >> ELSE << >>
MarkText(m) ==
    CASE m.k = "new" -> << IF m.f = NoName THEN "wrapped" ELSE "aka " \o m.f.name >>
      [] m.k = "opt" -> << "option" >>
      [] m.k = "ascii" -> If(m.f # NoName, "charset " \o m.f.name)
      [] m.k = "rstr" -> If(m.first # NoName, "first " \o m.first.name) \o If(m.rest # NoName, "rest " \o m.rest.name) \o << LenText(m.lo, m.hi) >>
      [] OTHER -> << >>
Attrs(ty, e) ==
    If(e.item.k \in {"field", "variant", "key", "value"} /\ TName(e) # "_", TName(e))
    \o (CASE ty.c = "prim" -> << IF ty.p = 0 THEN "Unit" ELSE PrimText(ty.p) >>
          [] ty.c = "array" -> << "len " \o DecN(ty.len) >>
          [] ty.c \in {"list", "set", "map"} -> << LenText(ty.lo, ty.hi) >>
          [] OTHER -> << >>)
    \o Flat([i \in 1..Len(e.w) |-> MarkText(e.w[i])])
    \o (IF ty.c = "enum" THEN [i \in 1..Len(ty.v) |-> ty.v[i].n \o " " \o DecN(ty.v[i].g)] ELSE << >>)
    \o (IF e.item.k = "variant" THEN << "tag " \o DecN(e.item.g) >> ELSE << >>)
RECURSIVE Tabs(_)
Tabs(n) == IF n = 0 THEN "" ELSE "  " \o Tabs(n - 1)
\* more than eight attributes are set in lines of eight
RECURSIVE Wrapped(_, _, _)
Wrapped(a, i, tab) ==
    IF i > Len(a) THEN ""
    ELSE (IF i > 1 /\ (i = 2 \/ (i - 1) % 8 # 1) THEN ", " ELSE "") \o a[i]
         \o (IF i > 1 /\ (i - 1) % 8 = 0 THEN "\n" \o tab ELSE "") \o Wrapped(a, i + 1, tab)
Line(ty, e) ==
    LET a == Attrs(ty, e)
        in == Tabs(e.depth)
    IN in \o Predicate(ty, e.w) \o " " \o Subject(e)
       \o (IF Len(a) > 8 THEN " {\n" \o in \o "  " ELSE IF a # << >> THEN ", " ELSE "")
       \o Wrapped(a, 1, in \o "  ")
       \o (IF Len(a) > 8 THEN "\n" \o in \o "}" ELSE "")
       \o (IF e.item.k = "pos" /\ e.f # NoName /\ e.f.name = "_" THEN " -- _" ELSE "") \o "\n"
Layout(D, q) == Cat([i \in 1..Len(q) |-> Line(D[q[i].id], q[i])])
=============================================================================
