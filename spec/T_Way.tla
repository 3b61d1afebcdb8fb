-------------------------------- MODULE T_Way --------------------------------
(* Trace specification for paths as objects.                                  *)
EXTENDS SWay, Trace
vars == << l, scn >>
TInit == TraceBase
TScn == Is("scn") /\ scn' = Ev.id
\* a path built from steps in several ways
TWay == /\ Is("way") /\ UNCHANGED scn
        /\ Chk(Ev.steps = [k |-> "ok", v |-> Ev.path], "C23", "steps of a path", Ev)
        /\ Chk(Ev.same.k = "ok" /\ Ev.same.v = TRUE, "C23", "paths built in different ways", Ev)
        /\ Chk(Ev.text = [k |-> "ok", v |-> WayText(Ev.k, Ev.path)], "C23", "text of a path", << Ev, WayText(Ev.k, Ev.path) >>)
        /\ Chk(Ev.bin = [k |-> "ok", v |-> WayBytes(Ev.k, Ev.path)], "C23", "stored path", Ev)
        /\ Chk(Ev.json = [k |-> "ok", v |-> Ev.path], "C23", "path through JSON", Ev)
\* bytes read as a path (of a path through a type: as one step)
TLoad == /\ Is("wayload") /\ UNCHANGED scn
         /\ LET r == WayAt(Ev.k, Ev.b) IN
            IF r.k = "ok" THEN Chk(Ev.out = [k |-> "ok", v |-> [p |-> r.v, n |-> r.i - 1]], "C23", "loading a path", << Ev, r >>)
            ELSE Chk(Ev.out.k = "err", "C23", IF Ev.out.k = "ok" THEN "damaged path accepted" ELSE "loading a path crashes", Ev)
TAbort == AbortEvent /\ UNCHANGED scn
TNext == TScn \/ TWay \/ TLoad \/ TAbort
TSpec == TInit /\ [][TNext]_vars
=============================================================================
