------------------------------- MODULE T_Form -------------------------------
(* Trace specification for text forms of values.                              *)
EXTENDS SForm, Trace
VARIABLES ty, said      \* the type, the typed values printed so far with their notation
vars == << l, scn, ty, said >>
TInit == TraceBase /\ ty = UnitTy /\ said = {}
TScn == Is("scn") /\ scn' = Ev.id /\ said' = {} /\ UNCHANGED ty
TTy == Is("ty") /\ ty' = Ev.ty /\ said' = {} /\ UNCHANGED scn
\* the notation of a typed value
TSton ==
    /\ Is("ston")
    /\ Chk(Ev.out.k # "panic", "C11", "printing crashes", << ty, Ev.v, Ev.out >>)
    /\ Chk(Ev.out.k = "ok" => Ev.out.v = Ston(Ev.v), "C11", "native notation differs", << ty, Ev.v, Ev.out >>)
    /\ LET n == << Norm(ty, Ev.v), Ev.out >> IN
       /\ Chk(\A p \in said : p[2] = Ev.out => p[1] = n[1], "C11", "different values look alike", << ty, Ev.v, Ev.out >>)
       /\ said' = said \cup { n }
    /\ UNCHANGED << scn, ty >>
\* a typed value written in a text format and read back both ways
Expressible(d) == Ev.fmt # "toml" \/ TomlDoc(d)
TTrip ==
    /\ Is("trip")
    /\ LET d == Doc(Ev.v)
           back == Ok(Norm(ty, Ev.v))
           typed(o) == IF o.k = "ok" THEN Ok(Norm(ty, o.v)) ELSE Err
           want(r) == IF r.k = "ok" THEN Ok(Norm(ty, r.v)) ELSE Err
           crash == Ev.wrote.k = "panic" \/ (Ev.wrote.k = "ok" /\ (Ev.read.k = "panic" \/ Ev.conv.k = "panic"))
       IN /\ Chk(~crash, "C11", "text forms crash", << ty, Ev >>)
          /\ Chk(Expressible(d) => Ev.wrote.k # "err", "C11", "value not written", << ty, Ev >>)
          /\ IF Ev.wrote.k # "ok" \/ crash THEN TRUE
             ELSE /\ Chk(SameDoc(Ev.wrote.v, d), "C11", "document differs", << ty, Ev.v, Ev.fmt, Ev.wrote >>)
                  /\ Chk(Lossy(Ev.v) => typed(Ev.read) = want(ReadAs(ty, d)), "C11", "value read from text differs from the specification", << ty, Ev.v, Ev.fmt, Ev.read >>)
                  /\ Chk(Lossy(Ev.v) \/ HasBig(Ev.v) => typed(Ev.conv) = want(ConvAs(ty, d)), "C11", "value converted from text differs from the specification", << ty, Ev.v, Ev.fmt, Ev.conv >>)
                  /\ Chk((Lossy(Ev.v) /\ ~Ev.strict) \/ typed(Ev.read) = back, "C11", "value lost on the way through text", << ty, Ev.v, Ev.fmt, Ev.read >>)
                  /\ Chk(((Lossy(Ev.v) \/ HasBig(Ev.v)) /\ ~Ev.strict) \/ typed(Ev.conv) = back, "C11", "value lost in the conversion from text", << ty, Ev.v, Ev.fmt, Ev.conv >>)
    /\ UNCHANGED << scn, ty, said >>
\* foreign documents
TDoc ==
    /\ Is("doc")
    /\ Chk(Ev.conv.k = "ok" /\ Plain(Ev.conv.v) = Conv(Ev.d), "C11", "foreign data converted to something else", << Ev.fmt, Ev.d, Ev.conv >>)
    /\ LET r == Read(Ev.d) IN
       /\ Chk(Ev.read.k # "panic", "C11", "reading a document crashes", << Ev.fmt, Ev.d, Ev.read >>)
       /\ Chk(Ev.read.k = "ok" => r.k = "ok" /\ Plain(Ev.read.v) = r.v, "C11", "document read as something else", << Ev.fmt, Ev.d, Ev.read >>)
       /\ Chk(r.k = "ok" => Ev.read.k # "err", "C11", "document refused", << Ev.fmt, Ev.d, Ev.read >>)
    /\ UNCHANGED << scn, ty, said >>
TAbort == AbortEvent /\ UNCHANGED << scn, ty, said >>
TNext == TScn \/ TTy \/ TSton \/ TTrip \/ TDoc \/ TAbort
TSpec == TInit /\ [][TNext]_vars
=============================================================================
