------------------------------- MODULE T_Path -------------------------------
EXTENDS SPath, Trace
VARIABLES root
vars == << l, scn, root >>
TInit == TraceBase /\ root = << >>
TScn == Is("scn") /\ scn' = Ev.id /\ UNCHANGED root
TRoot == Is("root") /\ root' = Ev.v /\ UNCHANGED scn
TVPath == /\ Is("vpath")
          /\ LET w == WalkV(root, Ev.path) IN Chk(Ev.out = w, "C12", IF Ev.out.k = "panic" THEN "value path crashes" ELSE
                "value path " \o (IF w.k = "ok" THEN "to a subvalue" ELSE w.e[1]), << root, Ev.path, Ev.out, w >>)
          /\ UNCHANGED << scn, root >>
\* the error names the type the path was followed through and the steps up to the failing one
TTPath == /\ Is("tpath")
          /\ LET w == WalkT(root, Ev.path) IN
             Chk(IF w.k = "ok" THEN Ev.out = w ELSE Ev.out.k = "err" /\ Ev.out.e = w.e,
                 "C13", IF Ev.out.k = "panic" THEN "type path crashes" ELSE "type path", << root, Ev.path, Ev.out, w >>)
          /\ Chk(Ev.of, "C13", "type named by the error", << root, Ev.path >>)
          /\ UNCHANGED << scn, root >>
TAbort == AbortEvent /\ UNCHANGED << scn, root >>
TNext == TScn \/ TRoot \/ TVPath \/ TTPath \/ TAbort
TSpec == TInit /\ [][TNext]_vars
=============================================================================
