-------------------------------- MODULE T_Own --------------------------------
(* Trace specification for decoding the crate's own stored data under the      *)
(* types published for it.                                                     *)
EXTENDS SOwn, Trace
vars == << l, scn >>
TInit == TraceBase
TScn == Is("scn") /\ scn' = Ev.id
\* the published libraries: names and identifiers of their types
Published == Ids
TOwn ==
    /\ Is("own") /\ UNCHANGED scn
    /\ Chk({ Ev.types[i].n : i \in 1..Len(Ev.types) } = DOMAIN Published, "C22", "published types", Ev)
    /\ \A i \in 1..Len(Ev.types) : LET t == Ev.types[i] IN
         Chk(t.n \in DOMAIN Published => t.id = Published[t.n], "C22,C02", "published definition of " \o t.n, t)
TStored ==
    /\ Is("stored") /\ UNCHANGED scn
    /\ LET w == View(Ev.kind, Ev.o) b == HexBytes(Ev.bin) IN
       /\ Chk(b = Bin(Ev.kind, Ev.o), "C22,C15", "stored bytes", << Ev.kind, Ev.o, Ev.bin >>)
       /\ Chk(Ev.out.k = "ok", "C22,C10", "stored data is not of the published type", << Ev.kind, Ev.bin, Ev.out >>)
       /\ Chk(Ev.out.k = "ok" => Ev.out.v = w, "C22,C10", "content under the published type", << Ev.kind, Ev.o, Ev.out >>)
       /\ Chk(Ev.out.k = "ok" => Ev.back = [k |-> "ok", v |-> Ev.bin], "C22,C09", "encoding again", << Ev.kind, Ev.bin, Ev.back >>)
TBytes ==
    /\ Is("bytes") /\ UNCHANGED scn
    /\ LET w == DecWhole(TypeOf(Ev.kind), HexBytes(Ev.b)) IN
       /\ Chk(Ev.out.k = w.k /\ (w.k = "ok" => Ev.out.v = w.v), "C22,C10", "damaged data under the published type", << Ev.kind, Ev.b, Ev.out >>)
       /\ Chk(Ev.out.k = "ok" => Ev.back = [k |-> "ok", v |-> Ev.b], "C22,C09", "encoding again", << Ev.kind, Ev.b, Ev.back >>)
       \* what the native loader reads is data of the published type
       /\ Chk(Ev.native => Ev.out.k = "ok", "C22", "loaded data is not of the published type", << Ev.kind, Ev.b, Ev.out >>)
TAbort == AbortEvent /\ UNCHANGED scn
TNext == TScn \/ TOwn \/ TStored \/ TBytes \/ TAbort
TSpec == TInit /\ [][TNext]_vars
=============================================================================
