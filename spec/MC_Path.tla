------------------------------- MODULE MC_Path -------------------------------
(* A cursor walks a value or a type step by step, over all small values and   *)
(* types and all paths over a small alphabet of steps.                        *)
EXTENDS SPath, TLC, Json
CONSTANTS MaxLen

U(x) == [v |-> "num", k |-> "u", b |-> << x, 0, 0, 0, 0, 0, 0, 0 >>]
S(x) == [v |-> "str", b |-> x]
B(x) == [v |-> "bytes", b |-> x]
Seqs(X, k) == UNION { [1..j -> X] : j \in 0..k }
L0 == { [v |-> "unit"], U(1), U(0), S(<< 97 >>), B(<< 97 >>) }
Key == { U(1), S(<< 97 >>), B(<< 97 >>), [v |-> "enum", t |-> [k |-> "o", g |-> 1]], [v |-> "enum", t |-> [k |-> "n", n |-> "a"]] }
Node(X, K) == { [v |-> c, f |-> q] : c \in {"tuple", "list", "set"}, q \in Seqs(X, 2) }
        \cup { [v |-> "struct", f |-> [i \in DOMAIN q |-> [n |-> IF i = 1 THEN "a" ELSE "b", x |-> q[i]]]] : q \in Seqs(X, 2) }
        \cup { [v |-> "map", f |-> << [k |-> k, x |-> x] >>] : k \in K, x \in X }
        \cup { [v |-> "map", f |-> << [k |-> k, x |-> x], [k |-> m, x |-> U(7)] >>] : k \in K, m \in K, x \in X }
        \cup { [v |-> "union", t |-> [k |-> "n", n |-> "a"], x |-> x] : x \in X }
D1 == Node({ U(1), S(<< 97 >>) }, Key)
Pick == { x \in D1 : IF x.v = "union" THEN TRUE ELSE Len(x.f) = 2 /\
            (CASE x.v = "map" -> x.f[1].k # x.f[2].k /\ x.f[1].x = U(1) /\ x.f[1].k \in { U(1), S(<< 97 >>) }
               [] x.v = "struct" -> TRUE
               [] OTHER -> x.f[1] # x.f[2]) }
D2 == Node(Pick, { U(1), S(<< 97 >>) })
Vals == L0 \cup D1 \cup D2
VSteps == { [s |-> "f", n |-> n] : n \in {"a", "b", "c"} } \cup { [s |-> "u", i |-> i] : i \in {0, 1, 2, 255} }
        \cup { [s |-> "i", b |-> b] : b \in { << 0, 0, 0, 0 >>, << 1, 0, 0, 0 >>, << 2, 0, 0, 0 >>, << 255, 255, 255, 255 >> } }
        \cup { [s |-> "k", key |-> [k |-> k, b |-> b]] : k \in {"str", "blob"}, b \in { << 97 >>, << >> } }
        \cup { [s |-> "k", key |-> [k |-> "num", b |-> << x, 0, 0, 0, 0, 0, 0, 0, y, 0, 0, 0, 0, 0, 0, 0 >>]] : x \in {0, 1}, y \in {0, 1} }

Em(t) == [r |-> "em", ty |-> t]
Tn == [r |-> "tn", name |-> "Other"]
Z8 == << 0, 0, 0, 0, 0, 0, 0, 0 >>
T0 == { [c |-> "prim", p |-> 1], [c |-> "uni"] }
EN == [c |-> "enum", v |-> << [n |-> "a", g |-> 0] >>]
TNode(X) == { [c |-> "tuple", f |-> q] : q \in { y \in Seqs(X, 2) : y # << >> } }
      \cup { [c |-> "struct", f |-> << [n |-> "a", t |-> x], [n |-> "b", t |-> y] >>] : x \in X, y \in X }
      \cup { [c |-> "union", v |-> << [n |-> "a", g |-> 1, t |-> x], [n |-> "b", g |-> 2, t |-> y] >>] : x \in X, y \in X }
      \cup { [c |-> "array", t |-> x, len |-> 2] : x \in X }
      \cup { [c |-> c, t |-> x, lo |-> Z8, hi |-> [Z8 EXCEPT ![1] = 9]] : c \in {"list", "set"}, x \in X }
      \cup { [c |-> "map", k |-> x, t |-> y, lo |-> Z8, hi |-> [Z8 EXCEPT ![1] = 9]] : x \in X, y \in X }
T1 == TNode({ Em(t) : t \in T0 } \cup {Tn})
T2 == TNode({ Em(t) : t \in { x \in T1 : CASE x.c = "tuple" -> x.f # << Tn, Tn >> /\ Len(x.f) = 2 /\ x.f[1] # x.f[2]
                                             [] x.c \in {"struct", "union"} -> LET q == IF x.c = "struct" THEN x.f ELSE x.v IN q[1].t = Em([c |-> "uni"]) /\ q[2].t = Em([c |-> "prim", p |-> 1])
                                             [] x.c = "map" -> x.k = Em([c |-> "uni"]) /\ x.t = Em([c |-> "prim", p |-> 1])
                                             [] OTHER -> x.t # Tn } })
Tys == T0 \cup {EN} \cup T1 \cup T2
TSteps == { [s |-> "f", n |-> n] : n \in {"a", "b", "c"} } \cup { [s |-> "v", n |-> n] : n \in {"a", "b", "c"} }
        \cup { [s |-> "u", i |-> i] : i \in {0, 1, 2} } \cup { [s |-> s] : s \in {"ix", "ls", "st", "mk", "mv"} }

\* kind of walk; root; the path so far; where it led
VARIABLES kind, root, path, at
vars == << kind, root, path, at >>
Init == /\ path = << >>
        /\ \/ kind = "v" /\ root \in Vals
           \/ kind = "t" /\ root \in Tys
        /\ at = OkP(root)
\* a failed walk goes no further
Go == /\ at.k = "ok" /\ Len(path) < MaxLen
      /\ \E s \in IF kind = "v" THEN VSteps ELSE TSteps :
            /\ path' = Append(path, s)
            /\ at' = IF kind = "v" THEN StepV(at.v, s) ELSE StepT(at.v, s)
      /\ UNCHANGED << kind, root >>
Spec == Init /\ [][Go]_vars

\* what a whole path addresses is where its steps lead one after another
Composed == LET w == IF kind = "v" THEN WalkV(root, path) ELSE WalkT(root, path) IN
            IF at.k = "ok" THEN w = at ELSE w.k = "err" /\ (kind = "v" => w = at) /\ (kind = "t" => w.e = path)
\* only parts of the root are ever reached
RECURSIVE PartsV(_), PartsT(_)
KidsV(v) == CASE v.v \in {"tuple", "list", "set"} -> { v.f[i] : i \in DOMAIN v.f }
              [] v.v \in {"struct", "map"} -> { v.f[i].x : i \in DOMAIN v.f }
              [] OTHER -> {}
PartsV(v) == {v} \cup UNION { PartsV(x) : x \in KidsV(v) }
KidsT(t) == LET R == CASE t.c = "tuple" -> { t.f[i] : i \in DOMAIN t.f } [] t.c = "struct" -> { t.f[i].t : i \in DOMAIN t.f }
                       [] t.c = "union" -> { t.v[i].t : i \in DOMAIN t.v } [] t.c \in {"array", "list", "set"} -> {t.t}
                       [] t.c = "map" -> {t.k, t.t} [] OTHER -> {}
            IN { r.ty : r \in { x \in R : x.r = "em" } }
PartsT(t) == {t} \cup UNION { PartsT(x) : x \in KidsT(t) }
Inside == at.k = "ok" => at.v \in (IF kind = "v" THEN PartsV(root) ELSE PartsT(root))
\* for the implementation: every value and type; the harness takes every path over the steps
ASSUME PrintT("SCN " \o ToJson([vals |-> Vals, vsteps |-> VSteps, tys |-> Tys, tsteps |-> TSteps]))
=============================================================================
