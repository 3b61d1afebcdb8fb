-------------------------------- MODULE T_Val --------------------------------
(* Trace specification for values: typing, encoding and decoding.              *)
EXTENDS SVal, Trace
VARIABLES ty     \* the type of the current scenario
vars == << l, scn, ty >>
TInit == TraceBase /\ ty = UnitTy
TScn == Is("scn") /\ scn' = Ev.id /\ UNCHANGED ty
TTy == Is("ty") /\ ty' = Ev.ty /\ UNCHANGED scn
\* typing untyped data
TTypify ==
    /\ Is("typify")
    /\ Chk(Ev.by.k = "same", "C07,C08", "typing by name", Ev)
    /\ LET r == Typify(ty, Ev.v) IN
       IF r.k = "ok"
       THEN /\ Chk(Ev.out.k # "panic", "C08", "typing crashes", Ev)
            /\ Chk(Ev.out.k # "err", "C08,C09", "value of the type refused", << ty, Ev.v >>)
            /\ Chk(Ev.out.k = "ok" => Ev.out.v.v = r.v, "C08,C09,C11", "typed value differs", << ty, Ev.v, Ev.out, r.v >>)
            /\ Chk(Ev.out.k = "ok" => Ev.out.v.orig, "C08", "typed value of another type", Ev)
       ELSE Chk(Ev.out.k = "err", "C08,C09", IF Ev.out.k = "ok" THEN "value outside of the type accepted" ELSE "typing crashes", << ty, Ev.v, Ev.out >>)
    /\ UNCHANGED << scn, ty >>
\* encoding a typed value
TEncode ==
    /\ Is("encode")
    /\ IF ~Typed(ty, Ev.v) THEN TRUE     \* reported with the typing
       ELSE LET b == Enc(ty, Ev.v) IN
            /\ Chk(Ev.out = Ok(b), "C09,C10", "encoding differs", << ty, Ev.v, Ev.out, b >>)
            /\ Chk(Ev.old = Ok(b), "C09", "encoding through the serialized type differs", << ty, Ev.v, Ev.old, b >>)
            /\ \A i \in DOMAIN Ev.narrow :    \* the last one has no room for the last byte
                  Chk(IF i = 3 /\ b # << >> THEN Ev.narrow[i].k = "err" ELSE Ev.narrow[i] = Ok(b), "C09", "encoding into a narrow writer", << ty, Ev.v, Ev.narrow[i] >>)
            /\ Chk(IF Len(b) <= 6 THEN Ev.small = Ok(b) ELSE Ev.small.k = "err", "C09", "size limit of the encoding", << ty, Ev.v, Ev.small >>)
    /\ UNCHANGED << scn, ty >>
\* memory: 64 MiB plus 64 KiB for each byte of the input
Mem == Ev.kb <= 65536 + 64 * Len(Ev.b)
TDecode ==
    /\ Is("decode")
    /\ Chk(Ev.by.k = "same", "C07,C10", "decoding by name", Ev)
    /\ LET r == DecWhole(ty, Ev.b) IN
       IF r.k = "ok"
       THEN /\ Chk(Ev.out.k # "panic", "C10", "decoding crashes", << ty, Ev.b >>)
            /\ Chk(Ev.out.k = "ok", "C09", "encoding of a value refused", << ty, Ev.b >>)
            /\ Chk(Ev.out.k = "ok" => Ev.out.v.v = r.v, "C09,C10", "decoded value differs", << ty, Ev.b, Ev.out, r.v >>)
            /\ Chk(Ev.out.k = "ok" => Ev.out.v.orig, "C10", "decoded value of another type", Ev)
       ELSE Chk(Ev.out.k = "err", "C10", IF Ev.out.k = "ok" THEN "invalid data accepted" ELSE "decoding crashes", << ty, Ev.b, Ev.out >>)
    /\ Chk(Mem, "C10", "memory out of proportion", << ty, Ev.b, Ev.kb >>)
    /\ UNCHANGED << scn, ty >>
\* items of no bytes: as many as the length says, however little that takes in the input
THollow ==
    /\ Is("hollow")
    /\ Chk(Ev.out.k # "panic", "C10", "decoding crashes", << ty, Ev.b >>)
    /\ Chk(Mem, "C10", "memory out of proportion for items of no bytes", << ty, Ev.b, Ev.kb > 65536 + 64 * Len(Ev.b) >>)
    /\ UNCHANGED << scn, ty >>
TStream ==
    /\ Is("stream")
    /\ Chk(Ev.by.k = "same", "C07,C10", "reading a stream by name", Ev)
    /\ Chk(Ev.slow.k = "same", "C09,C10", "reading a stream byte by byte", Ev)
    /\ LET r == Dec(ty, Ev.b, 0) IN
       IF r.k = "ok"
       THEN Chk(Ev.out.k = "ok" /\ Ev.out.v.v = r.v /\ Ev.out.v.n = r.i, "C09,C10", "value read from a stream", << ty, Ev.b, Ev.out, r >>)
       ELSE Chk(Ev.out.k = "err", "C10", IF Ev.out.k = "ok" THEN "invalid data read from a stream" ELSE "reading a stream crashes", << ty, Ev.b, Ev.out >>)
    /\ UNCHANGED << scn, ty >>
\* what the derived encoder of a Rust type writes for the same data: binds the specification itself
TNative ==
    /\ Is("native")
    /\ LET r == Typify(ty, Ev.v) IN
       Chk(r.k = "ok" /\ Enc(ty, r.v) = Ev.b /\ DecWhole(ty, Ev.b) = Ok(Norm(ty, r.v)), "C09", "native encoding", << ty, Ev.v, Ev.b >>)
    /\ UNCHANGED << scn, ty >>
\* names and identifiers which the system does not have
TAbsent == Is("absent") /\ Chk(\A i \in DOMAIN Ev.outs : Ev.outs[i] = "err", "C07,C08,C10", "unknown type", Ev.outs) /\ UNCHANGED << scn, ty >>
\* the libraries of the native types do not build
TNoSys == Is("nosys") /\ Chk(FALSE, "C05,C09", "no type system for the native types", << >>) /\ UNCHANGED << scn, ty >>
TAbort == AbortEvent /\ UNCHANGED << scn, ty >>
TNext == THollow \/ TScn \/ TTy \/ TTypify \/ TEncode \/ TDecode \/ TStream \/ TNative \/ TAbsent \/ TNoSys \/ TAbort
TSpec == TInit /\ [][TNext]_vars
=============================================================================
