-------------------------------- MODULE T_Text --------------------------------
(* Trace specification for identifiers as text.                               *)
EXTENDS SText, Trace
vars == << l, scn >>
TInit == TraceBase
TScn == Is("scn") /\ scn' = Ev.id
TForm ==
    /\ Is("idtext")
    /\ LET t == StrBytes(Ev.s) IN
       /\ Chk(t = Print(Ev.kind, Ev.f, Ev.id), "C17", "text form of an identifier", << Ev.kind, Ev.f, Ev.id, Ev.s >>)
       /\ Chk(Ev.back = [k |-> "ok", v |-> Ev.id], "C17", "identifier does not come back from its text", Ev)
    /\ UNCHANGED scn
\* white space around a JSON document is no part of it
Trim(f, t) == IF f # "json" THEN t ELSE SelectSeq(t, LAMBDA c : c # 32)
TParse ==
    /\ Is("idparse")
    /\ \A i \in 1..Len(Ev.texts) :
        LET x == Ev.texts[i]
            e == Parse(Ev.kind, x.f, Trim(x.f, StrBytes(x.s)))
        IN /\ Chk(x.out.k # "panic", "C17", "reading an identifier crashed", x)
           /\ Chk(x.out.k = "ok" => x.out = e, "C17", "text read as an identifier it does not spell", << Ev.kind, Ev.id, x, e >>)
    /\ UNCHANGED scn
TAbort == AbortEvent /\ UNCHANGED scn
TNext == TAbort \/ TScn \/ TForm \/ TParse
TSpec == TInit /\ [][TNext]_vars
=============================================================================
