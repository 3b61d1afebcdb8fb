-------------------------------- MODULE T_Id --------------------------------
(* Trace specification for identifiers.                                        *)
EXTENDS STypes, Trace
VARIABLES seen     \* identifiers met in this scenario: [id, n, ty]
vars == << l, scn, seen >>
TInit == TraceBase /\ seen = {}
TScn == Is("scn") /\ scn' = Ev.id /\ seen' = {}
\* a definition, with its identifiers under a name and without
TDef ==
    /\ Is("def")
    /\ Chk(Ev.id # "" => Ev.id = SemId(Ev.n, Ev.ty), "C02", "identifier of a named definition", Ev)
    /\ Chk(Ev.idu # "" => Ev.idu = SemIdU(Ev.ty), "C02", "identifier of an unnamed definition", Ev)
    /\ Chk(Ev.id # Ev.idu, "C02", "name not committed to", Ev)
    /\ UNCHANGED << scn, seen >>
\* two definitions which differ
TPair ==
    /\ Is("pair")
    /\ Chk(Ev.ida = SemId(Ev.na, Ev.a) /\ Ev.idb = SemId(Ev.nb, Ev.b), "C02", "identifier of a named definition", Ev)
    \* inlined composite types are not delimited in the published scheme: the pairs for which the scheme itself
    \* collides are the known limit of MC_Id, and are asserted on listed pairs only
    /\ LET Limit == LenStr(Ev.na) \o CommitTy(Ev.a) = LenStr(Ev.nb) \o CommitTy(Ev.b) IN
       Chk(((Ev.na = Ev.nb /\ Ev.a = Ev.b) <=> (Ev.ida = Ev.idb)) \/ (Limit /\ ~Ev.listed), "C02",
           IF Limit THEN "undelimited inlined types, same identifier" ELSE "different definitions, same identifier", << Ev.na, Ev.a, Ev.nb, Ev.b >>)
    /\ UNCHANGED << scn, seen >>
TLib ==
    /\ Is("lib")
    /\ Chk(Ev.v.id = LibId(Ev.v.lib), "C02", "library id", Ev.v.id)
    /\ Chk(Ev.v.ids = [i \in 1..Len(Ev.v.lib.types) |-> SemId(Ev.v.lib.types[i].n, Ev.v.lib.types[i].ty)], "C02", "type ids", Ev.v.ids)
    /\ UNCHANGED << scn, seen >>
Commits(x) == << x.name, [i \in 1..Len(x.deps) |-> x.deps[i].id], x.types >>
TLibPair ==
    /\ Is("libpair")
    /\ Chk(Ev.ida = LibId(Ev.a) /\ Ev.idb = LibId(Ev.b), "C02", "library id", << Ev.ida, Ev.idb >>)
    /\ Chk((Commits(Ev.a) = Commits(Ev.b)) <=> (Ev.ida = Ev.idb), "C02", "different libraries, same identifier", << Ev.a, Ev.b >>)
    /\ UNCHANGED << scn, seen >>
TSysId ==
    /\ Is("sysid")
    /\ Chk(Ev.id = SysId(Range(Ev.ids)), "C02", "type system id", Ev)
    /\ UNCHANGED << scn, seen >>
TAbort == AbortEvent /\ UNCHANGED << scn, seen >>
TNext == TScn \/ TDef \/ TPair \/ TLib \/ TLibPair \/ TSysId \/ TAbort
TSpec == TInit /\ [][TNext]_vars
=============================================================================
