-------------------------------- MODULE SList --------------------------------
(* Source listings of libraries, symbolic libraries and type systems, as text. *)
(* Listings are compared word by word: the amount of white space is no matter. *)
EXTENDS SLib
T == INSTANCE SText

\* ---- numbers --------------------------------------------------------------------
DigitText == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f" >>
RECURSIVE DivRem(_, _, _, _)
\* a little-endian number divided by a small one: << quotient, remainder >>
DivRem(b, i, r, d) == IF i = 0 THEN << b, r >> ELSE LET x == r * 256 + b[i] IN DivRem([b EXCEPT ![i] = x \div d], i - 1, x % d, d)
RECURSIVE InBase(_, _)
InBase(b, d) == LET q == DivRem(b, Len(b), 0, d) IN
                IF LESig(q[1]) = 0 THEN DigitText[q[2] + 1] ELSE InBase(q[1], d) \o DigitText[q[2] + 1]
DecNum(b) == InBase(b, 10)
HexNum(b) == "0x" \o InBase(b, 16)
DecN(n) == DecNum(LEOf(n, 8))

\* ---- bodies -----------------------------------------------------------------------
Max16 == LEOf(65535, 8)
Zero == LEOf(0, 8)
SizingText(lo, hi) ==
    CASE lo = Zero /\ hi = Max16 -> ""
      [] lo = hi -> " ^ " \o DecNum(lo)
      [] lo = Zero -> " ^ .." \o HexNum(hi)
      [] hi = Max16 -> " ^ " \o DecNum(lo) \o ".."
      [] OTHER -> " ^ " \o DecNum(lo) \o ".." \o HexNum(hi)
\* a list of one fixed length is told from an array
ListSizing(lo, hi) == IF lo = hi THEN " ^ " \o DecNum(lo) \o ".." \o HexNum(hi) ELSE SizingText(lo, hi)
PrimText(p) ==
    CASE p = 0 -> "()" [] p = 64 -> "Byte" [] p = 192 -> "F16b"
      [] OTHER -> LET z == p % 64
                      bytes == IF z >= 32 THEN 16 * ((z % 32) + 2) ELSE z
                  IN << "U", "I", "N", "F" >>[p \div 64 + 1] \o DecN(bytes * 8)
IsUnit(r) == r.r \in {"in", "em"} /\ r.ty = [c |-> "prim", p |-> 0]
IsOpt(ty) == /\ ty.c = "union" /\ Len(ty.v) = 2
             /\ ty.v[1].n = "none" /\ ty.v[1].g = 0 /\ ty.v[2].n = "some" /\ ty.v[2].g = 1
             /\ (IsUnit(ty.v[1].t) \/ (ty.v[1].t.r \in {"id", "nm"} /\ ty.v[1].t.id = UnitId))
\* inline definitions which need delimiters
Composite(ty) == (ty.c = "union" /\ ~IsOpt(ty)) \/ ty.c \in {"enum", "struct"} \/ (ty.c = "tuple" /\ Len(ty.f) > 1)
RECURSIVE Join(_, _)
Join(q, sep) == IF q = << >> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
\* the tag is shown where it does not follow the one before
TagText(v, i) == IF v[i].g = (IF i = 1 THEN 0 ELSE v[i - 1].g + 1) THEN "" ELSE "#" \o DecN(v[i].g)
RECURSIVE Body(_, _)
\* m: texts of the references by identifier or name
Ref(r, m) ==
    IF r.r \in {"in", "em"} THEN (IF Composite(r.ty) THEN "(" \o Body(r.ty, m) \o ")" ELSE Body(r.ty, m)) ELSE m[r]
Body(ty, m) ==
    CASE ty.c = "prim" -> PrimText(ty.p)
      [] ty.c = "uni" -> "Unicode"
      [] ty.c = "enum" -> Join([i \in 1..Len(ty.v) |-> ty.v[i].n \o TagText(ty.v, i)], " | ") \o (IF Len(ty.v) = 1 THEN " | (|)" ELSE "") \o " "
      [] ty.c = "union" ->
           IF IsOpt(ty) THEN Ref(ty.v[2].t, m) \o "?"
           ELSE Join([i \in 1..Len(ty.v) |-> ty.v[i].n \o TagText(ty.v, i) \o " " \o Ref(ty.v[i].t, m)], " | ") \o (IF Len(ty.v) = 1 THEN " | (|)" ELSE "")
      [] ty.c = "struct" -> Join([i \in 1..Len(ty.f) |-> ty.f[i].n \o " " \o Ref(ty.f[i].t, m)], IF Len(ty.f) >= 3 THEN " , " ELSE ", ")
      [] ty.c = "tuple" -> Join([i \in 1..Len(ty.f) |-> Ref(ty.f[i], m)], ", ")
      [] ty.c = "array" -> "[" \o Ref(ty.t, m) \o " ^ " \o DecN(ty.len) \o "]"
      [] ty.c = "list" -> "[" \o Ref(ty.t, m) \o ListSizing(ty.lo, ty.hi) \o "]"
      [] ty.c = "set" -> "{" \o Ref(ty.t, m) \o SizingText(ty.lo, ty.hi) \o "}"
      [] ty.c = "map" -> "{" \o Ref(ty.k, m) \o " ->" \o SizingText(ty.lo, ty.hi) \o " " \o Ref(ty.t, m) \o "}"
BodyOf(ty, R(_)) == Body(ty, [r \in AllRefs(ty) |-> R(r)])

\* ---- whole listings ------------------------------------------------------------------
IdText(kind, f, id) == BytesStr(T!Print(kind, f, id))
Words3(kind, id) == BytesStr(T!Mnemonic(T!Check(kind, HexBytes(id))))
DepText(d) == "import " \o d.name \o "#" \o Words3("stl", d.id) \o "\n"
RECURSIVE Cat(_)
Cat(q) == IF q = << >> THEN "" ELSE q[1] \o Cat(Tail(q))
LibRefText(r) == IF r.r = "ex" THEN IdText("stl", "", r.lib) \o "." \o IdText("semid", "", r.id) ELSE IdText("semid", "", r.id)
LibText(lib) ==
    "typelib " \o lib.name \o " -- " \o IdText("stl", "", LibId(lib)) \o "\n"
    \o Cat([i \in 1..Len(lib.deps) |-> DepText(lib.deps[i])]) \o (IF lib.deps = << >> THEN "-- no dependencies\n" ELSE "")
    \o Cat([i \in 1..Len(lib.types) |-> "data " \o lib.types[i].n \o " : " \o BodyOf(lib.types[i].ty, LibRefText) \o "\n"])
SymRefText(r) == IF r.r = "tn" THEN r.name ELSE r.lib \o "." \o r.name
SymRefAlt(r) == IF r.r = "tn" THEN r.name ELSE r.lib \o "." \o r.name \o "#" \o IdText("semid", "#", r.id)
\* alt: no mnemonics, identifiers with the references instead
SymText(sym, alt) ==
    LET c == Compile(sym)
        Use(n) == LET M == { i \in 1..Len(sym.ext) : sym.ext[i].lib = n } IN
                  IF M = {} THEN "" ELSE LET q == sym.ext[CHOOSE i \in M : TRUE].types IN
                  Cat([i \in 1..Len(q) |-> "use " \o q[i].n \o "#" \o Words3("semid", q[i].id) \o "\n"])
        \* the identifier shown next to a type is that of the type
        Own(i) == IF ~alt /\ c.k = "ok" THEN "@mnemonic(" \o Words3("semid", SemId(c.v.types[i].n, c.v.types[i].ty)) \o ")\n" ELSE ""
    IN "@context\ntypelib " \o sym.name \o "\n"
       \o Cat([i \in 1..Len(sym.deps) |-> DepText(sym.deps[i]) \o Use(sym.deps[i].name)]) \o (IF sym.deps = << >> THEN "-- no dependencies\n" ELSE "")
       \o Cat([i \in 1..Len(sym.types) |-> Own(i) \o "data " \o sym.types[i].n \o " : " \o (IF alt THEN BodyOf(sym.types[i].ty, SymRefAlt) ELSE BodyOf(sym.types[i].ty, SymRefText)) \o "\n"])
SysOf(o) == { o.types[i].id : i \in 1..Len(o.types) }
SysText(o) ==
    "typesys -- " \o IdText("sts", "", SysId(SysOf(o))) \o "\n"
    \o Cat([i \in 1..Len(o.types) |-> "data " \o IdText("semid", "-", o.types[i].id) \o ": " \o BodyOf(o.types[i].ty, LAMBDA r : IdText("semid", "-", r.id)) \o "\n"])
\* the name of a type is the first of those it is known under
Fqn(o, id) == LET M == { i \in 1..Len(o.syms) : o.syms[i].id = id } IN
              IF M = {} THEN "" ELSE LET s == o.syms[CHOOSE i \in M : \A j \in M : i <= j] IN IF s.lib = "" THEN "" ELSE s.lib \o "." \o s.name
SsysText(o) ==
    LET R(r) == LET n == Fqn(o, r.id) IN IF n = "" THEN IdText("semid", "-", r.id) ELSE n
        Line(t) == LET n == Fqn(o, t.id) IN
                   (IF n = "" THEN "data " \o IdText("semid", "-", t.id) ELSE "-- " \o IdText("semid", "-", t.id) \o "\ndata " \o n)
                   \o ": " \o BodyOf(t.ty, R) \o "\n"
    IN "typesys -- " \o IdText("sts", "", SysId(SysOf(o))) \o "\n" \o Cat([i \in 1..Len(o.types) |-> Line(o.types[i])])
\* names and identifiers only
SymbolsText(o) ==
    Cat([i \in 1..Len(o.libs) |-> o.libs[i].name \o "#" \o Words3("stl", o.libs[i].id) \o " as " \o o.libs[i].name \o "\n"]) \o "{--\n"
    \o Cat([i \in 1..Len(o.syms) |-> IF o.syms[i].lib = "" THEN "" ELSE o.syms[i].lib \o "." \o o.syms[i].name \o " => " \o IdText("semid", "", o.syms[i].id) \o "\n"]) \o "--}\n"
Listing(kind, o) ==
    CASE kind = "lib" -> LibText(o) [] kind = "sym" -> SymText(o, FALSE) [] kind = "symalt" -> SymText(o, TRUE) [] kind = "sys" -> SysText(o) [] kind = "ssys" -> SsysText(o) [] kind = "symbols" -> SymbolsText(o)
      [] kind = "dep" -> o.name \o "#" \o Words3("stl", o.id) [] kind = "symbol" -> IF o.lib = "" THEN IdText("semid", "", o.id) ELSE o.lib \o "." \o o.name
=============================================================================
