------------------------------- MODULE MC_Ext -------------------------------
(* All short histories of extensions; every history is executed on the code.  *)
EXTENDS SExt, TLC, Json
CONSTANTS MaxOps, MaxDeps, MaxTypes    \* the capacities are scaled down
VARIABLES lib, hist, ids
vars == << lib, hist, ids >>

H(k) == BytesHex([i \in 1..32 |-> k])
Deps == { [id |-> H(1), name |-> "Alpha"], [id |-> H(2), name |-> "Beta"], [id |-> H(1), name |-> "Gamma"], [id |-> H(3), name |-> "Alpha"] }
Tys == { << "Data", [c |-> "prim", p |-> 1] >>, << "Data", [c |-> "uni"] >>, << "DataX", [c |-> "prim", p |-> 1] >>,
         << "T", [c |-> "tuple", f |-> << [r |-> "nm", id |-> H(9)] >>] >> }
Start == { [name |-> "Lib", deps |-> d, ext |-> << >>, types |-> t] :
             d \in { << >>, << [id |-> H(2), name |-> "Beta"] >> },
             t \in { << [n |-> "Data", ty |-> [c |-> "prim", p |-> 2]] >>, << [n |-> "Zeta", ty |-> [c |-> "uni"]] >> } }
Init == lib \in Start /\ hist = << [op |-> "start", lib |-> lib] >> /\ ids = << LibId(lib) >>
Do(op, S) == \E x \in S : /\ lib' = x.lib /\ hist' = Append(hist, op @@ [k |-> x.k])
                          /\ ids' = IF x.k = "ok" THEN Append(ids, LibId(x.lib)) ELSE ids
Next == Len(hist) <= MaxOps /\
        \/ \E d \in Deps : Do([op |-> "import", dep |-> d], Import(lib, d, MaxDeps))
        \/ \E t \in Tys : Do([op |-> "populate", n |-> t[1], ty |-> t[2]], Populate(lib, t[1], t[2], MaxTypes))
Spec == Init /\ [][Next]_vars

\* nothing is lost or replaced, nothing appears twice, and only what was added is new
Grows ==
    LET s == hist[1].lib
        ok == SelectSeq(Tail(hist), LAMBDA h : h.k = "ok")
        di == { lib.deps[i] : i \in 1..Len(lib.deps) }
        ti == { lib.types[i] : i \in 1..Len(lib.types) }
    IN /\ di = { s.deps[i] : i \in 1..Len(s.deps) } \cup { ok[i].dep : i \in { j \in 1..Len(ok) : ok[j].op = "import" } }
       /\ ti = { s.types[i] : i \in 1..Len(s.types) } \cup { [n |-> ok[i].n, ty |-> ok[i].ty] : i \in { j \in 1..Len(ok) : ok[j].op = "populate" } }
       /\ Len(lib.deps) + Len(lib.types) = Len(s.deps) + Len(s.types) + Len(ok)
Unique == /\ Cardinality({ lib.deps[i].id : i \in 1..Len(lib.deps) }) = Len(lib.deps)
          /\ Cardinality({ lib.types[i].n : i \in 1..Len(lib.types) }) = Len(lib.types)
Limits == Len(lib.deps) <= MaxDeps /\ Len(lib.types) <= MaxTypes
Changes == Cardinality(Range(ids)) = Len(ids)
Dump == Len(hist) = MaxOps + 1 => PrintT("SCN " \o ToJson([lib |-> hist[1].lib, ops |-> Tail(hist)]))
=============================================================================
