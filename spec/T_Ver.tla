-------------------------------- MODULE T_Ver --------------------------------
(* Trace specification for versions, locators, formats and arguments.         *)
EXTENDS SVer, SText, Trace
vars == << l, scn >>
TInit == TraceBase
TScn == Is("scn") /\ scn' = Ev.id
TVer == /\ Is("ver") /\ UNCHANGED scn
        /\ Chk(Ev.same.k = "ok" /\ Ev.same.v = TRUE, "C24", "equality of versions", Ev)
        /\ Chk(Ev.text = [k |-> "ok", v |-> VerText(Ev.ver)], "C24", "text of a version", << Ev, BytesStr(VerText(Ev.ver)) >>)
        /\ Chk(Ev.bin = [k |-> "ok", v |-> VerBytes(Ev.ver)], "C24", "stored version", Ev)
TLoad == /\ Is("verload") /\ UNCHANGED scn
         /\ LET r == VerAt(Ev.b) IN
            IF r.k = "ok" THEN Chk(Ev.out = [k |-> "ok", v |-> [ver |-> r.v, n |-> r.i - 1]], "C24", "loading a version", << Ev, r >>)
            ELSE Chk(Ev.out.k = "err", "C24", IF Ev.out.k = "ok" THEN "damaged version accepted" ELSE "loading a version crashes", Ev)
\* where the two kinds of identified things are found
Locator(kind, f, id) == StrBytes(IF kind = "stl" THEN "urn:sten:lib:" ELSE "urn:sten:id:") \o Print(kind, f, id)
TUrn == /\ Is("urn") /\ UNCHANGED scn
        /\ Chk(Ev.text = [k |-> "ok", v |-> Locator(Ev.kind, Ev.f, Ev.id)], "C24", "text of a locator", << Ev, BytesStr(Locator(Ev.kind, Ev.f, Ev.id)) >>)
TFormat == /\ Is("format") /\ UNCHANGED scn
           /\ Chk(Ev.out = FormatOf(Ev.s), "C24", "format of a name", << Ev, FormatOf(Ev.s) >>)
           /\ Chk(Ev.out.k = "ok" => Ev.back = Ev.s, "C24", "name of a format", Ev)
\* an argument with further dashes may be taken or refused
TArgs == /\ Is("args") /\ UNCHANGED scn
         /\ LET free == Len(Ev.args) > 0 /\ Len(Ev.args[1]) > 4 /\ SubSeq(Ev.args[1], 1, 4) = "----" IN
            Chk(free \/ Ev.out = Args(Ev.args), "C24", "arguments of a program", << Ev, Args(Ev.args) >>)
TAbort == AbortEvent /\ UNCHANGED scn
TNext == TScn \/ TVer \/ TLoad \/ TUrn \/ TFormat \/ TArgs \/ TAbort
TSpec == TInit /\ [][TNext]_vars
=============================================================================
