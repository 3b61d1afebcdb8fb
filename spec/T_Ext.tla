-------------------------------- MODULE T_Ext --------------------------------
(* Trace specification for extending a library.                               *)
EXTENDS SExt, Trace
VARIABLES lib, ids
vars == << l, scn, lib, ids >>

None == [name |-> "", deps |-> << >>, ext |-> << >>, types |-> << >>]
TInit == TraceBase /\ lib = None /\ ids = {}
TScn == Is("scn") /\ scn' = Ev.id /\ UNCHANGED << lib, ids >>
TStart == Is("start") /\ lib' = Ev.v.lib /\ ids' = { LibId(Ev.v.lib) } /\ Chk(Ev.v.id = LibId(Ev.v.lib), "C16,C02", "library id", Ev.v) /\ UNCHANGED scn

Step(S) ==
    LET o == Ev.out
        v == Ev.after
        allowed == { x \in S : x.k = o.k /\ (x.k = "err" => x.e = o.e) }
    IN /\ Chk(allowed # {}, "C16", "outcome of an extension", << S, o >>)
       /\ Chk(o.k = "ok" => \E x \in S : x.k = "ok" /\ x.lib = v.lib, "C16", "library after an accepted extension", << lib, v.lib >>)
       /\ Chk(o.k # "ok" => v.lib = lib, "C16", "library changed by a refused extension", << lib, v.lib >>)
       /\ Chk(v.id = LibId(v.lib), "C16,C02", "library id", v)
       /\ Chk(o.k = "ok" => v.id \notin ids, "C16", "identifier not changed by an extension", v.id)
       /\ lib' = v.lib
       /\ ids' = IF o.k = "ok" THEN ids \cup {v.id} ELSE ids
       /\ UNCHANGED scn
TImport == Is("import") /\ Step(Import(lib, Ev.dep, 255))
TPopulate == Is("populate") /\ Step(Populate(lib, Ev.n, Ev.ty, 65535))

\* at the capacity only the number of entries is recorded
TCount ==
    /\ Is("count")
    /\ LET o == Ev.out
           k == IF Ev.taken \/ Ev.n >= Ev.max THEN "err" ELSE "ok"
           e == IF Ev.taken THEN {"DuplicateName", "DuplicatedDependency"} ELSE {"TooManyTypes", "TooManyDependencies"}
       IN /\ Chk(o.k = k, "C16", "outcome of an extension at the limit", Ev)
          /\ Chk(k = "err" /\ o.k = "err" => o.e \in e, "C16", "kind of refusal at the limit", Ev)
          /\ Chk(k = "err" => Ev.same /\ ~Ev.idchg, "C16", "library changed by a refused extension", Ev)
          /\ Chk(k = "ok" => Ev.after = Ev.n + 1 /\ Ev.only /\ Ev.idchg, "C16", "library after an accepted extension", Ev)
    /\ UNCHANGED << scn, lib, ids >>
TAbort == AbortEvent /\ UNCHANGED << scn, lib, ids >>
TNext == TAbort \/ TScn \/ TStart \/ TImport \/ TPopulate \/ TCount
TSpec == TInit /\ [][TNext]_vars
=============================================================================
