-------------------------------- MODULE T_List --------------------------------
(* Trace specification for listings.                                           *)
EXTENDS SList, Trace
vars == << l, scn >>
TInit == TraceBase
TScn == Is("scn") /\ scn' = Ev.id
TListing ==
    /\ Is("listing")
    /\ Chk(Ev.out.k = "ok", "C18", "listing crashed", << Ev.kind, Ev.v, Ev.out >>)
    /\ Chk(Ev.out.k = "ok" => SplitWords(Ev.out.v) = SplitWords(Listing(Ev.kind, Ev.v)), "C18", "listing", << Ev.kind, Ev.v, Ev.out, Listing(Ev.kind, Ev.v) >>)
    /\ UNCHANGED scn
TAbort == AbortEvent /\ UNCHANGED scn
TNext == TAbort \/ TScn \/ TListing
TSpec == TInit /\ [][TNext]_vars
=============================================================================
