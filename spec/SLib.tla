-------------------------------- MODULE SLib --------------------------------
(* Type libraries: declarations (the "program"), the library builder that     *)
(* registers types while dummy values are encoded, compilation of a symbolic  *)
(* library into one that refers by identifier, and the way back.              *)
(*                                                                            *)
(* A program P is a sequence of declarations [l: library, n: name ("" if      *)
(* unnamed), d: definition], numbered from 1; field types are                 *)
(* [k:"slot", i] or [k:"prim"|"str"|"rstr"|"arr"|"list"|"set"|"map"|"opt"..]. *)
EXTENDS STypes

\* ---- denotation: what a declaration means as a symbolic definition -------------------
Em(ty) == [r |-> "em", ty |-> ty]
RECURSIVE DefTy(_, _, _, _), DefRef(_, _, _, _)
\* size bounds of the tail of a restricted string are those of the whole minus one
RECURSIVE Dec(_)
Dec(b) == IF b = << >> THEN << >> ELSE IF b[1] > 0 THEN << b[1] - 1 >> \o Tail(b) ELSE << 255 >> \o Dec(Tail(b))
DefBody(P, D, lib, b) ==
    CASE b.k = "unit" -> UnitTy
      [] b.k = "tuple" -> [c |-> "tuple", f |-> [i \in 1..Len(b.f) |-> DefRef(P, D, lib, b.f[i])]]
      [] b.k = "struct" -> [c |-> "struct", f |-> [i \in 1..Len(b.f) |-> [n |-> b.f[i].n, t |-> DefRef(P, D, lib, b.f[i].t)]]]
DefTy(P, D, lib, d) ==
    CASE d.k = "enum" -> [c |-> "enum", v |-> SortTags({ [n |-> d.v[i].n, g |-> d.v[i].g] : i \in 1..Len(d.v) })]
      [] d.k = "union" -> [c |-> "union", v |-> SortTags({ [n |-> d.v[i].n, g |-> d.v[i].g, t |-> Em(DefBody(P, D, lib, d.v[i].b))] : i \in 1..Len(d.v) })]
      [] OTHER -> DefBody(P, D, lib, d)
\* D: library name -> id of the dependency of that name
DefRef(P, D, lib, t) ==
    CASE t.k = "slot" ->
            LET s == P[t.i] IN
            IF s.n = "" THEN Em(DefTy(P, D, lib, s.d))
            ELSE IF s.l = lib THEN [r |-> "tn", name |-> s.n]
            ELSE [r |-> "tx", lib |-> s.l, name |-> s.n, lid |-> D[s.l], id |-> SemId(s.n, DefTy(P, D, lib, s.d))]
      [] t.k = "prim" -> Em([c |-> "prim", p |-> t.p])
      [] t.k = "str" -> Em([c |-> "list", t |-> Em(UniTy), lo |-> t.lo, hi |-> t.hi])
      [] t.k = "rstr" -> Em([c |-> "tuple", f |-> << DefRef(P, D, lib, t.c1),
                              Em([c |-> "list", t |-> DefRef(P, D, lib, t.c0), lo |-> Dec(t.lo), hi |-> Dec(t.hi)]) >>])
      [] t.k = "arr" -> Em([c |-> "array", t |-> DefRef(P, D, lib, t.t), len |-> t.len])
      [] t.k \in {"list", "set"} -> Em([c |-> t.k, t |-> DefRef(P, D, lib, t.t), lo |-> t.lo, hi |-> t.hi])
      [] t.k = "map" -> Em([c |-> "map", k |-> DefRef(P, D, lib, t.key), t |-> DefRef(P, D, lib, t.t), lo |-> t.lo, hi |-> t.hi])
      [] t.k = "opt" -> Em([c |-> "union", v |-> << [n |-> "none", g |-> 0, t |-> Em(UnitTy)],
                              [n |-> "some", g |-> 1, t |-> Em([c |-> "tuple", f |-> << DefRef(P, D, lib, t.t) >>])] >>])

\* ---- declarations a declaration mentions, directly and transitively ---------------------
RECURSIVE RefSlots(_)
RefSlots(t) ==
    CASE t.k = "slot" -> { t.i }
      [] t.k \in {"arr", "list", "set", "opt"} -> RefSlots(t.t)
      [] t.k = "map" -> RefSlots(t.key) \cup RefSlots(t.t)
      [] t.k = "rstr" -> RefSlots(t.c1) \cup RefSlots(t.c0)
      [] OTHER -> {}
BodySlots(b) ==
    CASE b.k = "tuple" -> UNION { RefSlots(b.f[i]) : i \in 1..Len(b.f) }
      [] b.k = "struct" -> UNION { RefSlots(b.f[i].t) : i \in 1..Len(b.f) }
      [] OTHER -> {}
DeclSlots(d) ==
    CASE d.k = "union" -> UNION { BodySlots(d.v[i].b) : i \in 1..Len(d.v) }
      [] OTHER -> BodySlots(d)
RECURSIVE Closure(_, _)
Closure(P, S) == LET N == S \cup UNION { DeclSlots(P[i].d) : i \in S } IN IF N = S THEN S ELSE Closure(P, N)

\* ---- the builder ---------------------------------------------------------------------------
\* State: types registered (name -> definition), foreign types met (library -> id -> name), local named
\* declarations met.  A name stands for one definition: a library with two of them is refused.
NoTypes == [x \in {} |-> <<>>]
Empty == [types |-> NoTypes, ext |-> NoTypes, met |-> {}, broken |-> FALSE]

AddExt(ext, lib, id, name) ==
    IF lib \in DOMAIN ext
    THEN [ext EXCEPT ![lib] = [x \in DOMAIN @ \cup {id} |-> IF x = id THEN name ELSE @[x]]]
    ELSE [x \in DOMAIN ext \cup {lib} |-> IF x = lib THEN [y \in {id} |-> name] ELSE ext[x]]

\* Encoding the dummy value of declaration i reports every type it meets, innermost first;
\* a local type that was met already is not descended into again.
RECURSIVE Encode(_, _, _, _, _), EncodeAll(_, _, _, _, _)
EncodeAll(P, D, lib, st, todo) ==
    IF todo = {} \/ st.broken THEN st
    ELSE LET i == CHOOSE x \in todo : TRUE IN
         EncodeAll(P, D, lib, IF i \in st.met THEN st ELSE Encode(P, D, lib, st, i), todo \ {i})
Encode(P, D, lib, st, i) ==
    LET s == P[i]
        st1 == EncodeAll(P, D, lib, st, DeclSlots(s.d))
    IN IF st1.broken \/ s.n = "" THEN st1
       ELSE IF s.l # lib /\ s.l \notin DOMAIN D THEN [st1 EXCEPT !.broken = TRUE]
       ELSE LET ty == DefTy(P, D, lib, s.d) IN
            IF s.l = lib
            THEN IF s.n \in DOMAIN st1.types /\ st1.types[s.n] # ty THEN [st1 EXCEPT !.broken = TRUE]
                 ELSE [st1 EXCEPT !.types = [x \in DOMAIN @ \cup {s.n} |-> IF x = s.n THEN ty ELSE @[x]], !.met = @ \cup {i}]
            ELSE [st1 EXCEPT !.ext = AddExt(@, s.l, SemId(s.n, ty), s.n)]
\* the names of all declarations must be found among dependencies before ids can be computed
Declarable(P, D, lib, i) == \A j \in Closure(P, {i}) : P[j].n = "" \/ P[j].l = lib \/ P[j].l \in DOMAIN D
AddType(P, D, lib, st, i) == IF Declarable(P, D, lib, i) THEN Encode(P, D, lib, st, i) ELSE [st EXCEPT !.broken = TRUE]

\* ---- denotation of the builder state: what must be registered after adding the set S -------------
Registered(P, D, lib, S) ==
    LET C == Closure(P, S)
        L == { i \in C : P[i].n # "" /\ P[i].l = lib }
        X == { i \in C : P[i].n # "" /\ P[i].l # lib }
        xid(i) == SemId(P[i].n, DefTy(P, D, lib, P[i].d))
    IN [types |-> [n \in { P[i].n : i \in L } |-> LET i == CHOOSE j \in L : P[j].n = n IN DefTy(P, D, lib, P[i].d)],
        ext |-> [l \in { P[i].l : i \in X } |->
                   [id \in { xid(i) : i \in { j \in X : P[j].l = l } } |->
                        P[CHOOSE i \in X : P[i].l = l /\ xid(i) = id].n]],
        met |-> L, broken |-> FALSE]

\* two definitions under one name among the declarations and all they mention
Conflict(P, D, lib, S) ==
    LET L == { i \in Closure(P, S) : P[i].n # "" /\ P[i].l = lib } IN
    \E i, j \in L : P[i].n = P[j].n /\ DefTy(P, D, lib, P[i].d) # DefTy(P, D, lib, P[j].d)

\* ---- symbolic library -----------------------------------------------------------------------
TypesSeq(types) == LET q == SortStr(DOMAIN types) IN [i \in 1..Len(q) |-> [n |-> q[i], ty |-> types[q[i]]]]
ExtSeq(ext) ==
    LET q == SortStr(DOMAIN ext) IN
    [i \in 1..Len(q) |-> [lib |-> q[i],
        types |-> LET s == SortStr(DOMAIN ext[q[i]]) IN [j \in 1..Len(s) |-> [id |-> s[j], n |-> ext[q[i]][s[j]]]]]]
DepsSeq(deps) ==        \* set of [id, name], in id order
    LET q == SortStr({ d.id : d \in deps }) IN
    [i \in 1..Len(q) |-> LET d == CHOOSE d \in deps : d.id = q[i] IN [id |-> d.id, name |-> d.name]]

\* deps: set of [id, name, types: set of ids]; among several of one name, the one of the least identifier counts
Chosen(deps, n) == CHOOSE d \in deps : d.name = n /\ \A x \in deps : x.name = n /\ x # d => StrLT(d.id, x.id)
DepIds(deps) == [n \in { d.name : d \in deps } |-> Chosen(deps, n).id]
Symbols(lib, all, st) ==
    LET deps == { Chosen(all, n) : n \in { d.name : d \in all } }
        used == { d \in deps : d.name \in DOMAIN st.ext }
        missing == { << l, id >> \in UNION { { << l, id >> : id \in DOMAIN st.ext[l] } : l \in DOMAIN st.ext } :
                        \A d \in deps : d.name = l => id \notin d.types }
    IN IF st.broken \/ DOMAIN st.types = {} THEN [k |-> "panic"]
       ELSE IF missing # {} THEN [k |-> "err", e |-> "DependencyMissesType"]
       ELSE [k |-> "ok", v |-> [name |-> lib, deps |-> DepsSeq(used), ext |-> ExtSeq(st.ext), types |-> TypesSeq(st.types)]]

\* ---- compilation ----------------------------------------------------------------------------
MaxInline == 3
RECURSIVE Inlined(_), LocalNames(_)
\* depth of nested inline definitions below a definition
Inlined(ty) == LET q == Refs(ty)
                   S == { IF q[i].r = "em" THEN 1 + Inlined(q[i].ty) ELSE 0 : i \in 1..Len(q) } \cup {0}
               IN CHOOSE m \in S : \A x \in S : x <= m
LocalNames(ty) == LET q == Refs(ty) IN
    UNION { CASE q[i].r = "em" -> LocalNames(q[i].ty) [] q[i].r = "tn" -> {q[i].name} [] OTHER -> {} : i \in 1..Len(q) }
RECURSIVE CompRef(_, _)
CompRef(idx, r) ==
    CASE r.r = "em" -> [r |-> "in", ty |-> MapRefs(r.ty, LAMBDA x : CompRef(idx, x))]
      [] r.r = "tn" -> [r |-> "nm", id |-> idx[r.name]]
      [] r.r = "tx" -> [r |-> "ex", lib |-> r.lid, id |-> r.id]
CompTy(idx, ty) == MapRefs(ty, LAMBDA x : CompRef(idx, x))
\* names whose ids can be computed, to a fixpoint
RECURSIVE Fix(_, _)
Fix(types, idx) ==
    LET ready == { n \in DOMAIN types \ DOMAIN idx : LocalNames(types[n]) \subseteq DOMAIN idx } IN
    IF ready = {} THEN idx
    ELSE Fix(types, [n \in DOMAIN idx \cup ready |-> IF n \in ready THEN SemId(n, CompTy(idx, types[n])) ELSE idx[n]])

TypesFn(q) == [n \in { q[i].n : i \in 1..Len(q) } |-> q[CHOOSE i \in 1..Len(q) : q[i].n = n].ty]
\* foreign symbols mentioned by a definition
RECURSIVE Foreign(_)
Foreign(ty) == LET q == Refs(ty) IN
    UNION { CASE q[i].r = "em" -> Foreign(q[i].ty) [] q[i].r = "tx" -> {q[i]} [] OTHER -> {} : i \in 1..Len(q) }
Listed(sym, x) == \E i \in 1..Len(sym.ext) : sym.ext[i].lib = x.lib /\
    \E j \in 1..Len(sym.ext[i].types) : sym.ext[i].types[j].id = x.id /\ sym.ext[i].types[j].n = x.name
\* sym: symbolic library record.  An error names what is wrong: why is the set of [e: kind, of: name] allowed
MaxLibTypes == 65535
Compile(sym) ==
    LET types == TypesFn(sym.types)
        deep == { n \in DOMAIN types : Inlined(types[n]) > MaxInline }
        idx == Fix(types, NoTypes)
        stuck == UNION { LocalNames(types[n]) : n \in DOMAIN types \ DOMAIN idx } \ DOMAIN idx
        libs == { sym.ext[i].lib : i \in 1..Len(sym.ext) }
        names == { sym.deps[i].name : i \in 1..Len(sym.deps) }
        foreign == UNION { Foreign(types[n]) : n \in DOMAIN types }
        nolib == { x \in foreign : ~\E i \in 1..Len(sym.deps) : sym.deps[i].id = x.lid /\ sym.deps[i].name = x.lib }
        why == { [e |-> "NestedInline", of |-> n] : n \in deep }
                \cup { [e |-> "UnknownType", of |-> n] : n \in stuck }
                \cup { [e |-> "UnknownLib", of |-> n] : n \in (libs \ names) \cup { x.lib : x \in nolib } }
                \cup { [e |-> "DependencyMissesType", of |-> x.name] : x \in { y \in foreign \ nolib : ~Listed(sym, y) } }
                \cup (IF Len(sym.types) > MaxLibTypes THEN { [e |-> "TooManyTypes", of |-> ""] } ELSE {})
    IN IF why # {} THEN [k |-> "err", e |-> { x.e : x \in why }, why |-> why]
       ELSE [k |-> "ok",
             v |-> [name |-> sym.name,
                    deps |-> SelectSeq(sym.deps, LAMBDA d : d.name \in libs),
                    ext |-> sym.ext,
                    types |-> [i \in 1..Len(sym.types) |-> [n |-> sym.types[i].n, ty |-> CompTy(idx, sym.types[i].ty)]]]]

\* ---- references of a compiled library -----------------------------------------------------------
RECURSIVE AllRefs(_)
AllRefs(ty) == LET q == Refs(ty) IN
    UNION { IF q[i].r \in {"in", "em"} THEN AllRefs(q[i].ty) ELSE { q[i] } : i \in 1..Len(q) }
LibRefs(lib) == UNION { AllRefs(lib.types[i].ty) : i \in 1..Len(lib.types) }
LibTypeIds(lib) == { SemId(lib.types[i].n, lib.types[i].ty) : i \in 1..Len(lib.types) }
\* what the library records about foreign types: set of [id: lib id, t: type id, n]
ExtRecords(lib) == UNION { LET x == lib.ext[i] IN
    { [lib |-> x.lib, id |-> x.types[j].id, n |-> x.types[j].n] : j \in 1..Len(x.types) } : i \in 1..Len(lib.ext) }
Sound(lib) ==
    \A r \in LibRefs(lib) :
       CASE r.r = "nm" -> r.id \in LibTypeIds(lib)
         [] r.r = "ex" -> \E i \in 1..Len(lib.deps) :
                             /\ lib.deps[i].id = r.lib
                             /\ \E x \in ExtRecords(lib) : x.lib = lib.deps[i].name /\ x.id = r.id

\* ---- back to symbols ---------------------------------------------------------------------------
RECURSIVE SymRef(_, _, _, _)
SymRef(lib, names, exts, r) ==
    CASE r.r = "in" -> Em(MapRefs(r.ty, LAMBDA x : SymRef(lib, names, exts, x)))
      [] r.r = "nm" -> [r |-> "tn", name |-> names[r.id]]
      [] r.r = "ex" -> [r |-> "tx", lib |-> exts[r].lib, name |-> exts[r].n, lid |-> r.lib, id |-> r.id]
ToSymbolic(lib) ==
    IF ~Sound(lib) THEN [k |-> "err"]
    ELSE LET ids == [i \in 1..Len(lib.types) |-> SemId(lib.types[i].n, lib.types[i].ty)]
             names == [x \in Range(ids) |-> lib.types[CHOOSE i \in 1..Len(ids) : ids[i] = x].n]
             exts == [r \in { x \in LibRefs(lib) : x.r = "ex" } |->
                        LET dn == lib.deps[CHOOSE i \in 1..Len(lib.deps) : lib.deps[i].id = r.lib].name IN
                        CHOOSE x \in ExtRecords(lib) : x.lib = dn /\ x.id = r.id]
         IN [k |-> "ok", v |-> [name |-> lib.name, deps |-> lib.deps, ext |-> lib.ext,
                types |-> [i \in 1..Len(lib.types) |->
                    [n |-> lib.types[i].n, ty |-> MapRefs(lib.types[i].ty, LAMBDA x : SymRef(lib, names, exts, x))]]]]
=============================================================================
