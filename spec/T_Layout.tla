------------------------------- MODULE T_Layout -------------------------------
(* Trace specification for component trees and memory layouts.                 *)
EXTENDS SLayout, Trace
VARIABLES D, N, syms      \* the type system: definitions, names
vars == << l, scn, D, N, syms >>

TInit == TraceBase /\ D = << >> /\ N = << >> /\ syms = << >>
TScn == Is("scn") /\ scn' = Ev.id /\ UNCHANGED << D, N, syms >>
TSystem == Is("system") /\ D' = Defs(Ev) /\ N' = Names(Ev) /\ syms' = Ev.syms /\ UNCHANGED scn
Shown(e) == [depth |-> e.depth, ty |-> D[e.id], f |-> e.f, item |-> e.item, w |-> e.w]
TLayout ==
    /\ Is("layout")
    /\ LET q == Walk(D, N, Ev.id, NoItem, 0, << >>)
           want == [i \in 1..Len(q) |-> Shown(q[i])]
           text == Layout(D, q)
       IN /\ Chk(Ev.list = [k |-> "ok", v |-> want], "C14", IF Ev.list.k = "panic" THEN "listing the components crashed" ELSE "components", << D[Ev.id], Ev.list, want >>)
          /\ Chk(Ev.text = [k |-> "ok", v |-> text], "C14", IF Ev.text.k = "panic" THEN "printing the layout crashed" ELSE "printed layout", << D[Ev.id], Ev.text, text >>)
          /\ Chk(Ev.text.k = "ok" => Ev.same = [k |-> "ok", v |-> TRUE], "C14", "layout depends on how it is obtained", Ev.same)
    /\ UNCHANGED << scn, D, N, syms >>
TAbsent == Is("absent") /\ Chk(Ev.none, "C14,C07", "tree of an unknown type", Ev) /\ UNCHANGED << scn, D, N, syms >>
TByName ==
    /\ Is("byname")
    /\ LET S == { syms[i].id : i \in { j \in 1..Len(syms) : syms[j].lib = Ev.lib /\ syms[j].name = Ev.name } } IN
       Chk(Ev.out.k = "ok" /\ \E id \in S : id \in DOMAIN D /\ Ev.out.v = D[id], "C14,C07", "tree of a named type", Ev)
    /\ UNCHANGED << scn, D, N, syms >>
TAbort == AbortEvent /\ UNCHANGED << scn, D, N, syms >>
TNext == TAbort \/ TScn \/ TSystem \/ TLayout \/ TAbsent \/ TByName
TSpec == TInit /\ [][TNext]_vars
=============================================================================
