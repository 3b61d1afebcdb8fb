------------------------------- MODULE MC_Id -------------------------------
(* What identifiers commit to: over an enumerated set of definitions the      *)
(* committed bytes determine the definition (with references to named types   *)
(* and inlined simple types), and every change of one component shows.        *)
EXTENDS STypes, TLC
CONSTANTS Names, Tags, Prims, Bounds, MaxLen

VARIABLES n, d
vars == << n, d >>
Rep(x, k) == [i \in 1..k |-> x]
IdA == BytesHex(Rep(170, 32))
IdB == BytesHex(Rep(187, 32))
Em(t) == [r |-> "em", ty |-> t]
Simple == { Em([c |-> "prim", p |-> p]) : p \in Prims } \cup { Em(UniTy) }
Named == { [r |-> "nm", id |-> IdA], [r |-> "nm", id |-> IdB], [r |-> "ex", lib |-> IdA, id |-> BytesHex(Rep(204, 32))] }
RefSet == Simple \cup Named
B8(x) == << x, 0, 0, 0, 0, 0, 0, 0 >>
Seqs(S) == UNION { [1..k -> S] : k \in 1..MaxLen }
Distinct(q) == \A i, j \in DOMAIN q : i # j => q[i].n # q[j].n
ByTag(q) == \A i \in 1..(Len(q) - 1) : q[i].g < q[i + 1].g
Defs ==
    { [c |-> "prim", p |-> p] : p \in Prims } \cup { UniTy }
    \cup { [c |-> "enum", v |-> q] : q \in { x \in Seqs([n : Names, g : Tags]) : Distinct(x) /\ ByTag(x) } }
    \cup { [c |-> "union", v |-> q] : q \in { x \in Seqs([n : Names, g : Tags, t : RefSet]) : Distinct(x) /\ ByTag(x) } }
    \cup { [c |-> "tuple", f |-> q] : q \in Seqs(RefSet) }
    \cup { [c |-> "struct", f |-> q] : q \in { x \in Seqs([n : Names, t : RefSet]) : Distinct(x) } }
    \cup { [c |-> "array", t |-> r, len |-> k] : r \in RefSet, k \in {1, 256, 257} }
    \cup { [c |-> c, t |-> r, lo |-> B8(a), hi |-> B8(z)] : c \in {"list", "set"}, r \in RefSet, a \in Bounds, z \in Bounds }
    \cup { [c |-> "map", k |-> k, t |-> r, lo |-> B8(a), hi |-> B8(z)] : k \in RefSet, r \in RefSet, a \in Bounds, z \in Bounds }
TyNames == Names \cup {""}
Bytes(nm, ty) == (IF nm = "" THEN << >> ELSE LenStr(nm)) \o CommitTy(ty)
\* (identifiers of referenced types are digests: the constants stand for values that do not imitate
\* the encoding of something else) different definitions, different bytes; hence (collision resistance) different identifiers
ASSUME Injective == Cardinality({ Bytes(nm, ty) : nm \in TyNames, ty \in Defs }) = Cardinality(TyNames) * Cardinality(Defs)

\* Stated limit: inlined composite types are committed without a delimiter, so that
\* these different definitions do commit to the same bytes (known finding F-C02-1).
Limit1 == << [c |-> "tuple", f |-> << Em([c |-> "tuple", f |-> << Em(U8Ty), Em(U8Ty) >>]), Em(U8Ty) >>],
             [c |-> "tuple", f |-> << Em([c |-> "tuple", f |-> << Em(U8Ty), Em(U8Ty), Em(U8Ty) >>]) >>] >>
Limit2 == << [c |-> "struct", f |-> << [n |-> "a", t |-> Em([c |-> "enum", v |-> << [n |-> "x", g |-> 0], [n |-> "y", g |-> 1] >>])] >>],
             [c |-> "struct", f |-> << [n |-> "a", t |-> Em([c |-> "enum", v |-> << [n |-> "x", g |-> 0] >>])],
                                       [n |-> "y", t |-> Em(UniTy)] >>] >>
ASSUME KnownLimit == \A x \in {Limit1, Limit2} : x[1] # x[2] /\ CommitTy(x[1]) = CommitTy(x[2])

Init == n \in TyNames /\ d \in Defs
\* one component changed
Rename == n' \in TyNames \ {n} /\ UNCHANGED d
Rebound == d.c \in {"list", "set", "map"} /\ \E x \in Bounds : d' \in { [d EXCEPT !.lo = B8(x)], [d EXCEPT !.hi = B8(x)] } /\ UNCHANGED n
Resize == d.c = "array" /\ \E k \in {1, 256, 257} : d' = [d EXCEPT !.len = k] /\ UNCHANGED n
Reclass == d.c \in {"list", "set"} /\ d' = [d EXCEPT !.c = IF @ = "list" THEN "set" ELSE "list"] /\ UNCHANGED n
Next == Rename \/ Rebound \/ Resize \/ Reclass
Spec == Init /\ [][Next]_vars
Shows == [][Bytes(n', d') # Bytes(n, d)]_vars
=============================================================================
