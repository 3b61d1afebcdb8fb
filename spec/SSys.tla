-------------------------------- MODULE SSys --------------------------------
(* Type systems: the system builder importing libraries, finalization,        *)
(* lookup by name and identifier, extraction and merging.                     *)
(* A system is a function from identifier to definition (references [r:"id"]).*)
EXTENDS SLib

None == [k |-> "none"]
NoSys == [x \in {} |-> << >>]

\* ---- what a library contributes -----------------------------------------------------
SysRef(r) == [r |-> "id", id |-> IF r.r = "in" THEN SemIdU(r.ty) ELSE r.id]
SysTy(ty) == MapRefs(ty, LAMBDA r : SysRef(r))
RECURSIVE InlineTypes(_)
InlineTypes(ty) == LET q == Refs(ty)
                       S == { q[i].ty : i \in { j \in 1..Len(q) : q[j].r = "in" } }
                   IN S \cup UNION { InlineTypes(t) : t \in S }
LibInline(lib) == UNION { InlineTypes(lib.types[i].ty) : i \in 1..Len(lib.types) }
\* identifier -> definition
LibSys(lib) ==
    LET named == { << SemId(lib.types[i].n, lib.types[i].ty), SysTy(lib.types[i].ty) >> : i \in 1..Len(lib.types) }
        inl == { << SemIdU(t), SysTy(t) >> : t \in LibInline(lib) }
        all == named \cup inl
    IN [id \in { x[1] : x \in all } |-> (CHOOSE x \in all : x[1] = id)[2]]
LibSymbols(lib) == { [id |-> SemId(lib.types[i].n, lib.types[i].ty), lib |-> lib.name, name |-> lib.types[i].n] : i \in 1..Len(lib.types) }

\* ---- the builder ---------------------------------------------------------------------
\* [imported, pending: sets of dependency [id, name]; types: system; syms: set of [id, lib, name]]
NewBuilder == [imported |-> {}, pending |-> {}, types |-> NoSys, syms |-> {}]
Merge(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
ImportId(b, lib, id) ==
    LET me == [id |-> id, name |-> lib.name]
        imp == b.imported \cup { me }
        deps == { [id |-> lib.deps[i].id, name |-> lib.deps[i].name] : i \in 1..Len(lib.deps) }
        have == { d.id : d \in imp }
    IN [imported |-> imp,
        pending |-> { d \in b.pending \cup deps : d.id \notin have },
        types |-> Merge(b.types, LibSys(lib)),
        syms |-> b.syms \cup LibSymbols(lib)]
Import(b, lib) == ImportId(b, lib, LibId(lib))

RefIds(ty) == { Refs(ty)[i].id : i \in 1..Len(Refs(ty)) }
Missing(sys) == UNION { RefIds(sys[x]) : x \in DOMAIN sys } \ DOMAIN sys
Complete(sys) == Missing(sys) = {}
Finalize(b) ==
    IF b.pending # {} \/ ~Complete(b.types)
    THEN [k |-> "err", deps |-> { d.id : d \in b.pending }, types |-> Missing(b.types)]
    ELSE [k |-> "ok", types |-> b.types, libs |-> b.imported, syms |-> b.syms]

\* the same, said of the set of imported libraries
Denotation(libs) ==
    [imported |-> { [id |-> LibId(x), name |-> x.name] : x \in libs },
     pending |-> { d \in UNION { Range(x.deps) : x \in libs } : d.id \notin { LibId(x) : x \in libs } },
     types |-> LET all == UNION { { << id, LibSys(x)[id] >> : id \in DOMAIN LibSys(x) } : x \in libs }
               IN [id \in { y[1] : y \in all } |-> (CHOOSE y \in all : y[1] = id)[2]],
     syms |-> UNION { LibSymbols(x) : x \in libs }]

\* ---- lookups ---------------------------------------------------------------------------
Resolve(syms, lib, name) == { s.id : s \in { x \in syms : x.lib = lib /\ x.name = name } }
Names(syms, id) == { << s.lib, s.name >> : s \in { x \in syms : x.id = id } }

\* ---- extraction ---------------------------------------------------------------------------
RECURSIVE Reach(_, _)
Reach(sys, S) == LET N == S \cup UNION { RefIds(sys[x]) : x \in S \cap DOMAIN sys } IN IF N = S THEN S ELSE Reach(sys, N)
Extract(sys, S) ==
    LET R == Reach(sys, S) IN
    IF R \subseteq DOMAIN sys THEN [k |-> "ok", v |-> [x \in R |-> sys[x]]]
    ELSE [k |-> "err", ids |-> R \ DOMAIN sys]
=============================================================================
