------------------------------- MODULE MC_Sys -------------------------------
(* Exhaustive exploration of the system builder: all import sequences over a  *)
(* small family of libraries, including damaged ones, with every extraction.  *)
EXTENDS SSys, TLC, Json
CONSTANTS Which,      \* programs explored
          MaxImports, MaxRoots

VARIABLES pr, hist, b
vars == << pr, hist, b >>

Slot(i) == [k |-> "slot", i |-> i]
Prim(p) == [k |-> "prim", p |-> p]
Opt(t) == [k |-> "opt", t |-> t]
Z8 == << 0, 0, 0, 0, 0, 0, 0, 0 >>
M1 == << 255, 0, 0, 0, 0, 0, 0, 0 >>
Arr(t) == [k |-> "arr", t |-> t, len |-> 2]
Lst(t) == [k |-> "list", t |-> t, lo |-> Z8, hi |-> M1]
Fld(n, t) == [n |-> n, t |-> t]
Decl(l, n, col, d) == [l |-> l, n |-> n, col |-> col, d |-> d]
Prog(x) ==
    CASE x = "chain" ->     \* each library uses the one below
           << Decl("Alpha", "Kind", 5, [k |-> "enum", v |-> << [n |-> "x", g |-> 0], [n |-> "y", g |-> 1] >>]),
              Decl("Beta", "Point", 0, [k |-> "struct", f |-> << Fld("a", Opt(Slot(1))), Fld("b", Prim(1)) >>]),
              Decl("AlphaX", "Data", 0, [k |-> "tuple", f |-> << Lst(Slot(2)), Slot(2) >>]) >>
      [] x = "diamond" ->   \* and one unused dependency; same inline types on both sides
           << Decl("Alpha", "Kind", 5, [k |-> "struct", f |-> << Fld("a", Opt(Prim(1))) >>]),
              Decl("Beta", "Kind", 0, [k |-> "tuple", f |-> << Opt(Prim(1)), Slot(1) >>]),
              Decl("AlphaX", "Data", 0, [k |-> "tuple", f |-> << Slot(1), Arr(Slot(2)) >>]) >>
      [] x = "twins" ->     \* one definition under two names
           << Decl("Alpha", "Twin", 5, [k |-> "tuple", f |-> << Prim(2), Prim(1) >>]),
              Decl("Beta", "Twin", 0, [k |-> "tuple", f |-> << Prim(2), Prim(1) >>]),
              Decl("AlphaX", "Data", 0, [k |-> "tuple", f |-> << Slot(1) , Prim(8) >>]) >>
Names3 == << "Alpha", "Beta", "AlphaX" >>
RECURSIVE LibOf(_, _)
Deps(P, i) == { [id |-> LibId(LibOf(P, j)), name |-> Names3[j], types |-> LibTypeIds(LibOf(P, j))] : j \in 1..(i - 1) }
LibOf(P, i) ==
    LET deps == Deps(P, i)
        D == [n \in { d.name : d \in deps } |-> (CHOOSE d \in deps : d.name = n).id]
    IN Compile(Symbols(Names3[i], deps, Registered(P, D, Names3[i], { k \in 1..Len(P) : P[k].l = Names3[i] })).v).v
\* precomputed: three libraries, and the first without one of its types where it has a reader
LibsOf == [x \in Which |-> [i \in 1..3 |-> LibOf(Prog(x), i)]]
Init == pr \in Which /\ hist = << >> /\ b = NewBuilder
Imp(i) == Len(hist) < MaxImports /\ hist' = Append(hist, i) /\ b' = Import(b, LibsOf[pr][i]) /\ UNCHANGED pr
Next == \E i \in 1..3 : Imp(i)
Spec == Init /\ [][Next]_vars

Imported == { LibsOf[pr][i] : i \in Range(hist) }
\* C05: the builder's state is the denotation of the set imported
OrderFree == b = Denotation(Imported)
F == Finalize(b)
Closed == \A x \in Imported : \A i \in 1..Len(x.deps) : \E y \in Imported : LibId(y) = x.deps[i].id
FinalizeIff == (F.k = "ok" <=> Closed /\ Complete(b.types)) /\ (Closed => Complete(b.types))
\* C06
Roots == { S \in SUBSET DOMAIN b.types : Cardinality(S) <= MaxRoots }
Minimal == \A S \in Roots :
    LET x == Extract(b.types, S) IN
    x.k = "ok" => /\ S \subseteq DOMAIN x.v /\ Complete(x.v)
                  /\ \A t \in DOMAIN x.v : x.v[t] = b.types[t]
                  /\ \A t \in DOMAIN x.v \ S : ~Complete([y \in DOMAIN x.v \ {t} |-> x.v[y]])
                  /\ Extract(x.v, S) = x
ExtractComplete == F.k = "ok" => \A S \in Roots : Extract(F.types, S).k = "ok"
\* C07
RoundTrip == F.k = "ok" => \A s \in F.syms : s.id \in Resolve(F.syms, s.lib, s.name) /\ << s.lib, s.name >> \in Names(F.syms, s.id)
                              /\ Cardinality(Resolve(F.syms, s.lib, s.name)) = 1
Dump == Len(hist) = MaxImports => PrintT("SCN " \o ToJson([u |-> Prog(pr), imports |-> hist]))
=============================================================================
