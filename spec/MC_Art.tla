------------------------------- MODULE MC_Art -------------------------------
(* Objects of every kind are stored, the stored bytes are damaged at most      *)
(* MaxFaults times, and the result is loaded.  Every medium is also given to   *)
(* the code.                                                                   *)
EXTENDS SLoad, TLC, Json
CONSTANTS MaxFaults, Repl, Rich
VARIABLES kind, obj, med, faults
vars == << kind, obj, med, faults >>

H(k) == BytesHex([i \in 1..32 |-> k])
Z == LEOf(0, 8)
W == LEOf(65535, 8)
Ref(k) == CASE k = "lib" -> [r |-> "nm", id |-> H(3)] [] k = "sym" -> [r |-> "tn", name |-> "A"] [] OTHER -> [r |-> "id", id |-> H(3)]
Ref2(k) == CASE k = "lib" -> [r |-> "ex", lib |-> H(1), id |-> H(2)]
             [] k = "sym" -> [r |-> "tx", lib |-> "L", name |-> "T", lid |-> H(1), id |-> H(2)] [] OTHER -> [r |-> "id", id |-> H(1)]
\* n definitions around a type
RECURSIVE Nest(_, _, _)
Nest(k, n, ty) == IF n = 0 THEN ty ELSE [c |-> "tuple", f |-> << [r |-> IF k = "lib" THEN "in" ELSE "em", ty |-> Nest(k, n - 1, ty)] >>]
Flat0(k) == { [c |-> "prim", p |-> 1], [c |-> "uni"], [c |-> "enum", v |-> << [n |-> "a", g |-> 0], [n |-> "b", g |-> 2] >>],
              [c |-> "union", v |-> << [n |-> "a", g |-> 1, t |-> Ref(k)] >>],
              [c |-> "tuple", f |-> << Ref(k), Ref2(k) >>], [c |-> "struct", f |-> << [n |-> "x", t |-> Ref2(k)] >>],
              [c |-> "array", t |-> Ref(k), len |-> 258], [c |-> "list", t |-> Ref(k), lo |-> Z, hi |-> W],
              [c |-> "map", k |-> Ref(k), t |-> Ref(k), lo |-> W, hi |-> W] }
Deep(k) == IF k \in {"sys", "ssys"} THEN {} ELSE { Nest(k, n, [c |-> "list", t |-> Ref2(k), lo |-> Z, hi |-> W]) : n \in 1..3 }
Tys(k) == Flat0(k) \cup Deep(k)
Heads == { [name |-> "L", deps |-> << >>, ext |-> << >>],
           [name |-> "L2", deps |-> << [id |-> H(1), name |-> "D"] >>, ext |-> << [lib |-> "D", types |-> << [id |-> H(2), n |-> "T"] >>] >>] }
        \cup (IF Rich THEN { [name |-> "_", deps |-> << [id |-> H(1), name |-> "D"], [id |-> H(2), name |-> "D"] >>,
                              ext |-> << [lib |-> "D", types |-> << >>], [lib |-> "E", types |-> << [id |-> H(1), n |-> "T"], [id |-> H(2), n |-> "T"] >>] >>] } ELSE {})
LibObjs(k) == { [name |-> h.name, deps |-> h.deps, ext |-> h.ext, types |-> q] : h \in Heads,
                 q \in { << [n |-> "A", ty |-> t] >> : t \in Tys(k) } \cup { << [n |-> "A", ty |-> [c |-> "uni"]], [n |-> "A0", ty |-> [c |-> "prim", p |-> 0]] >> } }
SysObjs == { [types |-> q] : q \in { << >> } \cup { << [id |-> H(1), ty |-> t] >> : t \in Tys("sys") }
                               \cup { << [id |-> H(1), ty |-> [c |-> "uni"]], [id |-> H(2), ty |-> [c |-> "uni"]] >> } }
SsysObjs == { [libs |-> d, syms |-> s, types |-> q] :
               d \in { << >>, << [id |-> H(1), name |-> "D"] >> },
               s \in { << >>, << [id |-> H(1), lib |-> "", name |-> ""], [id |-> H(1), lib |-> "D", name |-> "T"] >> },
               q \in { << >>, << [id |-> H(1), ty |-> [c |-> "uni"]] >> } }
Objs(k) == CASE k \in {"lib", "sym"} -> LibObjs(k) [] k = "sys" -> SysObjs [] k = "ssys" -> SsysObjs

Init == kind \in {"lib", "sym", "sys", "ssys"} /\ obj \in Objs(kind) /\ med = Bin(kind, obj) /\ faults = << >>
Cut == \E n \in 0..Len(med) - 1 : med' = SubSeq(med, 1, n) /\ faults' = Append(faults, "cut")
More == \E c \in Repl : med' = med \o << c >> /\ faults' = Append(faults, "more")
Put == \E i \in 1..Len(med), c \in Repl : med[i] # c /\ med' = [med EXCEPT ![i] = c] /\ faults' = Append(faults, "put")
Bump == \E i \in 1..Len(med) : med' = [med EXCEPT ![i] = (@ + 1) % 256] /\ faults' = Append(faults, "put")
Drop == \E i \in 1..Len(med) : med' = SubSeq(med, 1, i - 1) \o SubSeq(med, i + 1, Len(med)) /\ faults' = Append(faults, "drop")
Insert == \E i \in 1..Len(med), c \in Repl : med' = SubSeq(med, 1, i - 1) \o << c >> \o SubSeq(med, i, Len(med)) /\ faults' = Append(faults, "insert")
Swap == \E i \in 1..Len(med) - 1 : med[i] # med[i + 1] /\ med' = [med EXCEPT ![i] = med[i + 1], ![i + 1] = med[i]] /\ faults' = Append(faults, "swap")
Next == Len(faults) < MaxFaults /\ (Cut \/ More \/ Put \/ Bump \/ Drop \/ Insert \/ Swap) /\ UNCHANGED << kind, obj >>
Spec == Init /\ [][Next]_vars

L == Load(kind, med)
Whole == faults = << >> => L = [k |-> "ok", v |-> obj]
\* what loads is what is stored as these bytes
Exact == L.k = "ok" => Bin(kind, L.v) = med
\* a single cut or extension is never accepted
Cuts == Len(faults) = 1 /\ faults[1] \in {"cut", "more"} => L.k = "err"
\* the stored form tells objects apart
Apart == \A o \in Objs(kind) : o # obj => Bin(kind, o) # Bin(kind, obj)
Dump == PrintT("SCN " \o ToJson([kind |-> kind, b |-> BytesHex(med)]))
=============================================================================
