------------------------------- MODULE T_Sys -------------------------------
(* Trace specification for type systems.                                      *)
EXTENDS SSys, Trace

VARIABLES libs,   \* library number -> library, as given to the builder
          b,      \* builder state
          sys,    \* current type system (identifier -> definition)
          syms,   \* its symbols
          got     \* finalized systems of this scenario: imported set -> id
vars == << l, scn, libs, b, sys, syms, got >>

SysOf(q) == [x \in { q[i].id : i \in 1..Len(q) } |-> q[CHOOSE i \in 1..Len(q) : q[i].id = x].ty]
NoDup(q) == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]

TInit == TraceBase /\ libs = << >> /\ b = NewBuilder /\ sys = NoSys /\ syms = {} /\ got = {}
TScn == Is("scn") /\ scn' = Ev.id /\ libs' = << >> /\ b' = NewBuilder /\ sys' = NoSys /\ syms' = {} /\ got' = {}
TLib == Is("lib") /\ libs' = Append(libs, [lib |-> Ev.lib, id |-> Ev.id])
        /\ Chk(Ev.id = LibId(Ev.lib), "C02", "library id", Ev.id)
        /\ UNCHANGED << scn, b, sys, syms, got >>
TStart == Is("start") /\ b' = NewBuilder /\ UNCHANGED << scn, libs, sys, syms, got >>
TImport ==
    /\ Is("import")
    /\ Chk(Ev.out.k = "ok", "C05", "import refused", Ev.out)
    /\ b' = ImportId(b, libs[Ev.i].lib, libs[Ev.i].id)
    /\ UNCHANGED << scn, libs, sys, syms, got >>

DepsOf(q) == { [id |-> q[i].id, name |-> q[i].name] : i \in 1..Len(q) }
Pairs(q) == { [id |-> q[i].id, lib |-> q[i].lib, name |-> q[i].name] : i \in { j \in 1..Len(q) : q[j].name # "" } }
TFinalize ==
    /\ Is("finalize")
    /\ LET x == Finalize(b)
           o == Ev.out
       IN /\ Chk(x.k = o.k, "C05", "outcome of finalizing", << x.k, IF x.k = "err" THEN << x.deps, x.types >> ELSE << >>, o.k >>)
          /\ (IF o.k = "err" /\ x.k = "err" THEN
                /\ Chk(x.deps = Range(Ev.deps), "C05", "missing libraries reported", << x.deps, Ev.deps >>)
                /\ Chk(x.types = Range(Ev.types), "C05", "missing types reported", << x.types, Ev.types >>)
              ELSE TRUE)
          /\ (IF o.k = "ok" THEN
                LET s == SysOf(o.v.types) p == Pairs(o.v.syms) IN
                /\ Chk(x.k = "ok" => s = x.types, "C05", "types of the system",
                        [expected |-> b.types, observed |-> s])
                /\ Chk(Complete(s), "C05", "incomplete system", Missing(s))
                /\ Chk(x.k = "ok" => DepsOf(o.v.libs) = x.libs, "C05,C07", "libraries of the system", << x, o.v.libs >>)
                /\ Chk(x.k = "ok" => p = x.syms, "C05,C07", "names of the system", << b.syms, p >>)
                /\ Chk({ o.v.syms[i].id : i \in 1..Len(o.v.syms) } = DOMAIN s, "C07", "symbols and types", o.v.syms)
                /\ Chk(o.v.id = SysId(DOMAIN s), "C02,C05", "type system id", o.v.id)
                /\ Chk(o.v.count = Cardinality(DOMAIN s), "C05", "number of types", o.v.count)
                /\ Chk(o.v.into, "C05", "types of the symbolic system", o)
                /\ Chk(\A y \in got : (y.n = b.imported) => (y.h = o.v.hash), "C05", "same libraries, different system", o.v.hash)
                /\ got' = got \cup { [n |-> b.imported, h |-> o.v.hash] }
                /\ sys' = s /\ syms' = p
              ELSE UNCHANGED << sys, syms, got >>)
    /\ UNCHANGED << scn, libs, b >>
\* a type system assembled directly
TDirect ==
    /\ Is("direct") /\ sys' = SysOf(Ev.types) /\ syms' = Pairs(Ev.syms) /\ UNCHANGED << scn, libs, b, got >>
    /\ Chk(Ev.id = SysId(DOMAIN SysOf(Ev.types)), "C02", "type system id", Ev.id)
TResolve ==
    /\ Is("resolve")
    /\ LET x == Resolve(syms, Ev.lib, Ev.name) IN
       /\ Chk(IF x = {} THEN Ev.out = "" ELSE Ev.out \in x, "C07", "resolving a name", << Ev.lib, Ev.name, x, Ev.out >>)
       /\ Chk(Ev.toid = Ev.out, "C07", "name to id", Ev)
       /\ Chk(Ev.spelled = Ev.out, "C07", "spelled name to id", Ev)
       /\ Chk(IF x = {} THEN Ev.index.k = "panic" ELSE Ev.index = [k |-> "ok", v |-> Ev.out], "C07", "index by name", Ev)
       /\ Chk(Ev.tree = Ev.ty, "C07,C14", "tree by name", Ev)
       /\ Chk(IF x = {} \/ ~(x \subseteq DOMAIN sys) THEN Ev.ty.k = "none" ELSE \E id \in x : Ev.ty = [k |-> "some", v |-> sys[id]], "C07", "type by name", Ev)
    /\ UNCHANGED << scn, libs, b, sys, syms, got >>
TLookup ==
    /\ Is("lookup")
    /\ LET x == Names(syms, Ev.id) IN
       /\ Chk(IF x = {} THEN Ev.out = << "", "" >> ELSE Ev.out \in x, "C07", "name of an id", << Ev.id, x, Ev.out >>)
       /\ Chk(Ev.find = Ev.ty /\ Ev.tree = Ev.ty, "C07", "type found by id", Ev)
       /\ Chk(Ev.toid = Ev.id, "C07", "id to id", Ev)
       /\ Chk(IF Ev.ty.k = "none" THEN Ev.index.k = "panic" ELSE Ev.index = [k |-> "ok", v |-> Ev.ty.v], "C07", "index by id", Ev)
       /\ Chk(Ev.ty = IF Ev.id \in DOMAIN sys THEN [k |-> "some", v |-> sys[Ev.id]] ELSE None, "C07", "type by id", Ev)
    /\ UNCHANGED << scn, libs, b, sys, syms, got >>
TExtract ==
    /\ Is("extract")
    /\ LET x == Extract(sys, Range(Ev.ids))
           o == Ev.out
       IN /\ Chk(x.k = o.k, "C06", "outcome of extraction", << Ev.ids, x.k, o >>)
          /\ Chk(x.k = "err" /\ o.k = "err" => o.e \in x.ids, "C06", "missing type reported", << x, o >>)
          /\ Chk(x.k = "ok" /\ o.k = "ok" => SysOf(o.v) = x.v, "C06", "extracted system", << DOMAIN x.v, o >>)
          /\ Chk(o.k = "ok" => Ev.id = SysId(DOMAIN SysOf(o.v)), "C02,C06", "type system id", Ev.id)
    /\ UNCHANGED << scn, libs, b, sys, syms, got >>
TExtend ==
    /\ Is("extend")
    /\ Chk(Ev.out.k = "ok" /\ SysOf(Ev.out.v) = Merge(SysOf(Ev.a), SysOf(Ev.b)), "C06", "merged system", Ev.out)
    /\ UNCHANGED << scn, libs, b, sys, syms, got >>
TAbort == AbortEvent /\ UNCHANGED << scn, libs, b, sys, syms, got >>
TNext == TScn \/ TLib \/ TStart \/ TImport \/ TFinalize \/ TDirect \/ TResolve \/ TLookup \/ TExtract \/ TExtend \/ TAbort
TSpec == TInit /\ [][TNext]_vars
=============================================================================
