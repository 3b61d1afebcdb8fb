-------------------------------- MODULE T_Art --------------------------------
(* Trace specification for storing and loading libraries and type systems.    *)
EXTENDS SLoad, Trace
T == INSTANCE SText
L == INSTANCE SList
VARIABLES obj            \* the object under test: [kind, v, id, bin]
vars == << l, scn, obj >>

TInit == TraceBase /\ obj = << >>
TScn == Is("scn") /\ scn' = Ev.id /\ UNCHANGED obj
TObj ==
    /\ Is("obj")
    /\ LET b == HexBytes(Ev.bin) IN
       /\ Chk(b = Bin(Ev.kind, Ev.v), "C15", "stored bytes", << Ev.kind, Ev.v, Ev.bin >>)
       /\ Chk(Ev.id = Ident(Ev.kind, Ev.v), "C15,C02", "identifier", << Ev.kind, Ev.id >>)
    /\ obj' = [kind |-> Ev.kind, v |-> Ev.v, id |-> Ev.id]
    /\ UNCHANGED scn
TLoad ==
    /\ Is("load")
    /\ LET o == Ev.out IN
       \* only YAML may be unable to hold an object
       /\ Chk(Ev.wrote \/ Ev.form = "yaml", "C15", "object cannot be written as " \o Ev.form, << Ev.kind, o >>)
       /\ Chk(Ev.wrote => o.k = "ok", "C15", "stored object does not load from " \o Ev.form, << Ev.kind, o >>)
       /\ Chk(o.k = "ok" => o.v.v = obj.v /\ o.v.id = obj.id /\ o.v.eq /\ o.v.same, "C15", "loaded object differs, from " \o Ev.form, << obj, o >>)
    /\ UNCHANGED << scn, obj >>
TCut ==
    /\ Is("cut")
    /\ Chk(Ev.bad = << >>, "C15", "truncated or extended data accepted", << obj, Ev.bad >>)
    /\ UNCHANGED << scn, obj >>
\* bytes of any origin: what loads is the object which is stored as these very bytes
TAltered ==
    /\ Is("altered")
    /\ LET o == Ev.out
           b == HexBytes(Ev.bytes)
           m == Load(Ev.kind, b)
       IN /\ Chk(o.k # "panic", "C15", "loading crashed", << Ev.kind, Ev.bytes, o >>)
          /\ Chk(o.k = "ok" => m.k = "ok" /\ o.v.v = m.v, "C15", "data read as an object which is not stored so", << Ev.kind, Ev.bytes, o >>)
          /\ Chk(o.k = "err" => ~(m.k = "ok" /\ ObjOk(Ev.kind, m.v) /\ MaxDepth(m.v) <= MaxInline), "C15", "stored object refused", << Ev.kind, Ev.bytes, o >>)
          /\ Chk(o.k = "ok" => o.v.id = Ident(Ev.kind, o.v.v), "C15,C02", "identifier", << Ev.kind, o >>)
    /\ UNCHANGED << scn, obj >>
TRaw == Is("raw") /\ Chk(HexBytes(Ev.bin) = Bin(Ev.kind, Ev.o), "MACHINERY", "raw bytes", Ev) /\ UNCHANGED << scn, obj >>
TText == Is("text") /\ Chk(Ev.out.k # "panic", "C15", "loading crashed", Ev) /\ UNCHANGED << scn, obj >>
\* armored text with one alteration: refused, or nothing that matters was altered
TArmor ==
    /\ Is("armor")
    /\ LET o == Ev.out
           d == IF Ev.decl = << >> THEN T!Err ELSE T!Parse(IdKind(Ev.kind), "", Ev.decl)
       IN /\ Chk(o.k # "panic", "C15", "loading crashed", << Ev.kind, Ev.op, o >>)
          /\ Chk(o.k = "ok" => d.k = "ok", "C15", "armor without a readable identifier accepted", << Ev.kind, Ev.op, Ev.decl >>)
          /\ Chk(o.k = "ok" /\ d.k = "ok" => d.v = (IF Ev.same THEN obj.id ELSE Ident(Ev.kind, o.v.v)),
                 "C15", "armor accepted under an identifier which is not that of its content", << Ev.kind, Ev.op, BytesStr(Ev.decl) >>)
          /\ Chk(o.k = "ok" /\ Ev.op # "content" => Ev.same, "C15", "altered armor accepted", << Ev.kind, Ev.op >>)
    /\ UNCHANGED << scn, obj >>
\* a source file: a heading, then the listing of the library in terms of names
SourceText(kind, o, ver, hdr) ==
    "{-\n" \o (IF kind = "lib" THEN "Id: " \o BytesStr(T!Print("stl", "", LibId(o))) ELSE "") \o "\nName: " \o o.name \o "\nVersion: " \o ver \o hdr \o "\n-}\n"
    \o L!Listing("sym", IF kind = "lib" THEN ToSymbolic(o).v ELSE o)
TFile ==
    /\ Is("file")
    /\ Chk(Ev.wrote.k = "ok" /\ Ev.n = 1, "C15,C18", "file is not written", Ev.wrote)
    /\ Chk(Ev.name = obj.v.name \o "@" \o Ev.ver \o "." \o Ev.ext, "C15,C18", "file name", Ev.name)
    /\ Chk(Ev.ext # "sty" => Ev.back.k = "ok" /\ Ev.back.v.v = obj.v /\ Ev.back.v.id = obj.id, "C15", "file does not load back", << obj, Ev.ext, Ev.back >>)
    /\ Chk(Ev.ext = "sty" => SplitWords(BytesStr(Ev.text)) = SplitWords(SourceText(obj.kind, obj.v, Ev.ver, Ev.hdr)), "C15,C18", "source file",
           << obj, BytesStr(Ev.text), SourceText(obj.kind, obj.v, Ev.ver, Ev.hdr) >>)
    /\ UNCHANGED << scn, obj >>
TDeep ==
    /\ Is("deep")
    /\ Chk(Ev.out.k \in {"ok", "err"} /\ Ev.same, "C15", "nested definitions", Ev)
    /\ Chk(Ev.n <= MaxInline => Ev.out.k = "ok" /\ Ev.out.compile.k = "ok", "C15", "nested definitions refused", Ev)
    /\ UNCHANGED << scn, obj >>
TAbort == AbortEvent /\ UNCHANGED << scn, obj >>
TNext == TAbort \/ TScn \/ TObj \/ TLoad \/ TCut \/ TAltered \/ TRaw \/ TText \/ TArmor \/ TFile \/ TDeep
TSpec == TInit /\ [][TNext]_vars
=============================================================================
