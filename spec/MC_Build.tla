------------------------------ MODULE MC_Build ------------------------------
(* Exhaustive exploration of the library builder for a small family of        *)
(* programs: every order of adding (with repetitions), every state of the     *)
(* dependency.  The histories are dumped and executed on the real code.       *)
EXTENDS SLib, TLC, Json
CONSTANTS Wraps,    \* ways in which one declaration mentions another
          Wraps3,   \* the same for the last one
          MaxAdds

VARIABLES P, mode, hist, st
vars == << P, mode, hist, st >>

Zero8 == << 0, 0, 0, 0, 0, 0, 0, 0 >>
Max1 == << 255, 0, 0, 0, 0, 0, 0, 0 >>
Slot(i) == [k |-> "slot", i |-> i]
Prim(p) == [k |-> "prim", p |-> p]
W(w, t) ==
    CASE w = "slot" -> t
      [] w = "opt" -> [k |-> "opt", t |-> t]
      [] w = "list" -> [k |-> "list", t |-> t, lo |-> Zero8, hi |-> Max1]
      [] w = "arr" -> [k |-> "arr", t |-> t, len |-> 2]
      [] w = "map" -> [k |-> "map", key |-> Prim(1), t |-> t, lo |-> Zero8, hi |-> Max1]
      [] w = "deep" -> [k |-> "opt", t |-> [k |-> "opt", t |-> [k |-> "list", t |-> [k |-> "arr", t |-> t, len |-> 3], lo |-> Zero8, hi |-> Max1]]]
Defs1 == { [k |-> "enum", v |-> << [n |-> "x", g |-> 0], [n |-> "y", g |-> 1] >>], [k |-> "struct", f |-> << [n |-> "a", t |-> Prim(1)] >>] }
Defs2(w) == { [k |-> "tuple", f |-> << W(w, Slot(1)), Prim(2) >>],
              [k |-> "struct", f |-> << [n |-> "x", t |-> W(w, Slot(1))], [n |-> "y", t |-> Slot(1)] >>],
              [k |-> "union", v |-> << [n |-> "none", g |-> 0, b |-> [k |-> "unit", f |-> << >>]],
                                       [n |-> "some", g |-> 1, b |-> [k |-> "tuple", f |-> << W(w, Slot(1)) >>]] >>] }
Programs == { << [l |-> "Alpha", n |-> n1, d |-> d1, col |-> 5],
                 [l |-> l2, n |-> "Point", d |-> d2, col |-> 0],
                 [l |-> "Alpha", n |-> "Extra", d |-> [k |-> "tuple", f |-> << Prim(4) >>], col |-> 6],
                 [l |-> "Beta", n |-> n3, d |-> [k |-> "struct", f |-> << [n |-> "a", t |-> W(w3, Slot(2))], [n |-> "b", t |-> Slot(1)] >>], col |-> 1] >> :
                n1 \in {"Kind", ""}, d1 \in Defs1, l2 \in {"Alpha", "Beta"}, d2 \in UNION { Defs2(w) : w \in Wraps },
                n3 \in {"Data", "Kind"}, w3 \in Wraps3 }

Lib == "Beta"
\* the dependency as it is given to the builder of Beta
AlphaNames == { i \in DOMAIN P : P[i].l = "Alpha" /\ P[i].n # "" }
AlphaSym == [name |-> "Alpha", deps |-> << >>, ext |-> << >>, types |-> TypesSeq(Registered(P, NoTypes, "Alpha", AlphaNames).types)]
AlphaLib == Compile(AlphaSym).v
First(S) == CHOOSE x \in S : \A y \in S : x = y \/ StrLT(x, y)
Deps == CASE mode = "absent" -> {}
          [] mode = "full" -> { [id |-> LibId(AlphaLib), name |-> "Alpha", types |-> LibTypeIds(AlphaLib)] }
          [] mode = "missing" -> { [id |-> LibId(AlphaLib), name |-> "Alpha", types |-> LibTypeIds(AlphaLib) \ { First(LibTypeIds(AlphaLib)) }] }
D == DepIds(Deps)

\* a third declaration of Beta under the name of another one, with another or with the same definition
Twins == { Append(p, [l |-> "Beta", n |-> n, d |-> d, col |-> 7]) :
             p \in { q \in Programs : q[2].l = "Beta" /\ q[4].n = "Data" }, n \in {"Point", "Data"},
             d \in { [k |-> "struct", f |-> << [n |-> "a", t |-> Slot(2)], [n |-> "b", t |-> Slot(1)] >>], [k |-> "tuple", f |-> << Slot(2) >>], [k |-> "tuple", f |-> << Prim(4) >>] } }
Init == P \in Programs \cup Twins /\ Compile(AlphaSym).k = "ok" /\ mode \in {"full", "missing", "absent"} /\ hist = << >> /\ st = Empty
Add(i) == /\ Len(hist) < MaxAdds /\ ~st.broken
          /\ hist' = Append(hist, i) /\ st' = AddType(P, D, Lib, st, i) /\ UNCHANGED << P, mode >>
AddBeta == \E i \in { j \in DOMAIN P : P[j].l = "Beta" } : Add(i)
AddAlpha == \E i \in { j \in DOMAIN P : P[j].l = "Alpha" } : Add(i)
Next == AddBeta \/ AddAlpha
Spec == Init /\ [][Next]_vars

Sym == Symbols(Lib, Deps, st)
\* C01: what is registered depends on the set of declarations added, not on how
Confluence == ~st.broken => st = Registered(P, D, Lib, Range(hist))
\* C03, C04
Outcome ==
    LET y == Sym c == Compile(y.v) IN
    y.k = "ok" =>
      /\ (c.k = "ok" =>
           /\ Sound(c.v)
           /\ \A r \in LibRefs(c.v) : r.r = "ex" => \E d \in Deps : d.id = r.lib /\ r.id \in d.types
           /\ LET s == ToSymbolic(c.v) IN s.k = "ok" /\ s.v = y.v /\ Compile(s.v) = c)
      /\ (c.k = "err" <=> \E n \in DOMAIN st.types : Inlined(st.types[n]) > MaxInline)
Refusals ==
    /\ st.broken <=> ~(\A i \in Range(hist) : Declarable(P, D, Lib, i)) \/ Conflict(P, D, Lib, Range(hist))
    /\ Sym.k = "err" => mode = "missing"

\* maximal histories are printed, for execution on the real code
Dump == (Len(hist) = MaxAdds \/ st.broken) => PrintT("SCN " \o ToJson([u |-> P, mode |-> mode, adds |-> hist]))
=============================================================================
