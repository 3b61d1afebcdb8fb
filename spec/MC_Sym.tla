------------------------------- MODULE MC_Sym -------------------------------
(* Compilation of a symbolic library as a process that compiles any type      *)
(* whose references are all compiled; for every small library, sound or not.  *)
EXTENDS SLib, TLC, Json
CONSTANTS Names, Shapes
VARIABLES sym, idx
vars == << sym, idx >>

Hx(k) == BytesHex([i \in 1..32 |-> k])
U8 == Em([c |-> "prim", p |-> 1])
Tx == [r |-> "tx", lib |-> "Ext", name |-> "Data", lid |-> Hx(1), id |-> Hx(2)]
Lst(t) == Em([c |-> "list", t |-> t, lo |-> << 0, 0, 0, 0, 0, 0, 0, 0 >>, hi |-> << 255, 0, 0, 0, 0, 0, 0, 0 >>])
To(n) == [r |-> "tn", name |-> n]
Def(s) ==
    CASE s.k = "flat" -> [c |-> "prim", p |-> 1]
      [] s.k = "ref" -> [c |-> "tuple", f |-> << U8, To(s.n) >>]
      [] s.k = "in1" -> [c |-> "struct", f |-> << [n |-> "a", t |-> Lst(To(s.n))], [n |-> "b", t |-> U8] >>]
      [] s.k = "in3" -> [c |-> "array", len |-> 2, t |-> Lst(Em([c |-> "union", v |-> << [n |-> "x", g |-> 3, t |-> Lst(To(s.n))] >>]))]
      [] s.k = "in4" -> [c |-> "array", len |-> 2, t |-> Lst(Lst(Em([c |-> "tuple", f |-> << Lst(To(s.n)) >>])))]
      [] s.k = "ext" -> [c |-> "map", k |-> U8, t |-> Tx, lo |-> << 0, 0, 0, 0, 0, 0, 0, 0 >>, hi |-> << 255, 0, 0, 0, 0, 0, 0, 0 >>]
      [] s.k = "extn" -> [c |-> "tuple", f |-> << Lst([Tx EXCEPT !.name = "Other"]) >>]
      [] s.k = "extl" -> [c |-> "tuple", f |-> << [Tx EXCEPT !.lib = "Elsewhere"] >>]
Targets == Names \cup {"Undefined"}
Choices == { [k |-> k, n |-> n] : k \in Shapes \cap {"ref", "in1", "in3", "in4"}, n \in Targets }
           \cup { [k |-> k, n |-> ""] : k \in Shapes \cap {"flat", "ext", "extn", "extl"} }
Lib(f) == [name |-> "Lib", deps |-> << [id |-> Hx(1), name |-> "Ext"] >>,
           ext |-> << [lib |-> "Ext", types |-> << [id |-> Hx(2), n |-> "Data"] >>] >>,
           types |-> TypesSeq([n \in Names |-> Def(f[n])])]
Types == TypesFn(sym.types)
Init == sym \in { Lib(f) : f \in [Names -> Choices] } /\ idx = NoTypes
Compiling(n) == /\ n \notin DOMAIN idx
                /\ LocalNames(Types[n]) \subseteq DOMAIN idx
                /\ idx' = [x \in DOMAIN idx \cup {n} |-> IF x = n THEN SemId(n, CompTy(idx, Types[n])) ELSE idx[x]]
                /\ UNCHANGED sym
CompileType == \E n \in Names : Compiling(n)
Next == CompileType
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Final == Fix(Types, NoTypes)
Stopped == ~ENABLED Next
\* in whatever order, the same ids; the process stops short exactly for unresolved references
Confluent == DOMAIN idx \subseteq DOMAIN Final /\ \A n \in DOMAIN idx : idx[n] = Final[n]
Complete == Stopped => idx = Final
\* reachability, stated without the process
Direct(n) == LocalNames(Types[n])
RECURSIVE Reach(_)
Reach(S) == LET N == S \cup UNION { Direct(n) : n \in S \cap Names } IN IF N = S THEN S ELSE Reach(N)
Bad(n) == \E m \in Reach({n}) : m \notin Names \/ m \in Reach(Direct(m))
Exact == Stopped => \A n \in Names : n \in DOMAIN idx <=> ~Bad(n)
Outcome ==
    LET c == Compile(sym) IN
    /\ (\E n \in Names : Bad(n)) => c.k = "err"
    /\ c.k = "err" => c.why # {}
    /\ c.k = "ok" => Sound(c.v) /\ LET s == ToSymbolic(c.v) IN s.k = "ok" /\ s.v = sym
Terminates == <>(Stopped)
Dump == idx = NoTypes => PrintT("SCN " \o ToJson([sym |-> sym]))
=============================================================================
