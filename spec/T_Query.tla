------------------------------ MODULE T_Query ------------------------------
(* Trace specification for questions about definitions.                       *)
EXTENDS SQuery, Trace
VARIABLES ty     \* the definition asked about
vars == << l, scn, ty >>
TInit == TraceBase /\ ty = UnitTy
TScn == Is("scn") /\ scn' = Ev.id /\ UNCHANGED ty
TTy == /\ Is("ty") /\ ty' = Ev.ty /\ UNCHANGED scn
       /\ Chk(Ev.cls = ClsOf(Ev.ty), "C20", "class", << Ev.ty, Ev.cls >>)
       /\ LET w == Is_(Ev.ty) IN \A k \in DOMAIN w : Chk(Ev.is[k] = w[k], "C20", "kind of a type: " \o k, << Ev.ty, Ev.is[k] >>)
       /\ Chk(Ev.some = InOption(Ev.ty), "C20", "content of an option", << Ev.ty, Ev.some >>)
       /\ Chk(Ev.wrapped = Wrapped(Ev.ty), "C20", "content of a wrapper", << Ev.ty, Ev.wrapped >>)
       /\ Chk(Ev.iter = Components(Ev.ty), "C20", "components", << Ev.ty, Ev.iter >>)
       /\ Chk(Ev.into = Refs(Ev.ty), "C20", "referenced types", << Ev.ty, Ev.into >>)
       /\ Chk(Ev.len = (CASE Ev.ty.c \in {"enum", "union"} -> Len(Ev.ty.v) [] Ev.ty.c \in {"struct", "tuple"} -> Len(Ev.ty.f) [] OTHER -> 0), "C20", "number of parts", << Ev.ty, Ev.len >>)
       /\ Chk(Ev.ends = (IF Ev.ty.c = "union" THEN << Label(Ev.ty.v[1]), Label(Ev.ty.v[Len(Ev.ty.v)]) >> ELSE << >>), "C20", "first and last variant", << Ev.ty, Ev.ends >>)
       /\ Chk(Ev.count = Len(Refs(Ev.ty)), "C20", "number of referenced types", << Ev.ty, Ev.count >>)
       /\ Chk(Ev.labels = (CASE Ev.ty.c \in {"enum", "union"} -> [i \in DOMAIN Ev.ty.v |-> Label(Ev.ty.v[i])] [] Ev.ty.c = "struct" -> [i \in DOMAIN Ev.ty.f |-> Ev.ty.f[i].n] [] OTHER -> << >>), "C20", "labels taken out", << Ev.ty, Ev.labels >>)
       /\ Chk(Ev.types = (IF Ev.ty.c \in {"union", "struct", "tuple"} THEN Refs(Ev.ty) ELSE << >>), "C20", "types taken out", << Ev.ty, Ev.types >>)
TAt == /\ Is("at") /\ UNCHANGED << scn, ty >>
       /\ Chk(Ev.t = At(ty, Ev.p), "C20", "component by position", << ty, Ev >>)
       /\ Chk(Ev.c = CaseAt(ty, Ev.p), "C20", "label by position", << ty, Ev >>)
       /\ Chk(Ev.name = (IF ty.c = "union" /\ Ev.p < Len(ty.v) THEN << ty.v[Ev.p + 1].n >> ELSE << >>), "C20", "variant name by position", << ty, Ev >>)
       /\ Chk(Ev.part = (IF ty.c \in {"union", "struct", "tuple"} THEN At(ty, Ev.p) ELSE << >>), "C20", "part by position", << ty, Ev >>)
TTag == /\ Is("tag") /\ UNCHANGED << scn, ty >>
        /\ LET v == ByTag(ty, Ev.g) IN
           /\ Chk(Ev.has = (v # << >>), "C20", "variant by tag", << ty, Ev >>)
           /\ Chk(Ev.name = Opt(v, LAMBDA x : x.n), "C20", "variant name by tag", << ty, Ev >>)
           /\ Chk(Ev.by = Opt(v, LAMBDA x : Label(x)), "C20", "variant by tag", << ty, Ev >>)
           /\ Chk(Ev.t = (IF ty.c = "union" THEN Opt(v, LAMBDA x : x.t) ELSE << >>) /\ Ev.t2 = Ev.t, "C20", "variant type by tag", << ty, Ev >>)
TName == /\ Is("name") /\ UNCHANGED << scn, ty >>
         /\ LET v == ByName(ty, Ev.n) IN
            /\ Chk(Ev.has = (v # << >>), "C20", "variant by name", << ty, Ev >>)
            /\ Chk(Ev.tag = Opt(v, LAMBDA x : x.g), "C20", "tag by name", << ty, Ev >>)
            /\ Chk(Ev.by = Opt(v, LAMBDA x : Label(x)), "C20", "variant by name", << ty, Ev >>)
            /\ Chk(Ev.t = (IF ty.c = "union" THEN Opt(v, LAMBDA x : x.t) ELSE << >>) /\ Ev.t2 = Ev.t, "C20", "variant type by name", << ty, Ev >>)
            /\ Chk(Ev.field = FieldTy(ty, Ev.n), "C20", "field type by name", << ty, Ev >>)
\* questions about a reference
TRef == /\ Is("ref") /\ UNCHANGED << scn, ty >>
        /\ Chk(Ev.compound = RefCompound(Ev.ref), "C20", "compound reference", Ev)
        /\ Chk(Ev.unit = RefUnit(Ev.ref), "C20", "reference to the unit", Ev)
        /\ Chk(Ev.byte = IsByteRef(Ev.ref), "C20", "reference to a byte", Ev)
        /\ Chk(Ev.uni = RefUni(Ev.ref), "C20", "reference to a character", Ev)
        /\ Chk(Ev.ty = RefTy(Ev.ref), "C20", "definition held by a reference", Ev)
        /\ Chk(Ev.refs = (IF RefTy(Ev.ref) = << >> THEN << >> ELSE Components(Ev.ref.ty)), "C20", "components behind a reference", Ev)
TAbort == AbortEvent /\ UNCHANGED << scn, ty >>
TNext == TScn \/ TTy \/ TAt \/ TTag \/ TName \/ TRef \/ TAbort
TSpec == TInit /\ [][TNext]_vars
=============================================================================
