------------------------------ MODULE MC_Query ------------------------------
(* Listing the components of a definition one by one, and looking each of its *)
(* parts up again; over all small definitions of symbolic libraries.          *)
EXTENDS SQuery, TLC, Json
CONSTANTS Names, Tags, MaxLen
VARIABLES ty, pos, out
vars == << ty, pos, out >>
Em(t) == [r |-> "em", ty |-> t]
E1 == [c |-> "enum", v |-> << [n |-> "a", g |-> 32], [n |-> "b", g |-> 127] >>]
Leaf == { Em(UnitTy), Em(U8Ty), Em(UniTy), Em(E1), [r |-> "tn", name |-> "T"] }
Inner == Leaf \cup { Em([c |-> "tuple", f |-> << x >>]) : x \in {Em(E1), Em(UnitTy)} } \cup { Em([c |-> "array", t |-> Em(U8Ty), len |-> 3]) }
Seqs(S) == UNION { [1..k -> S] : k \in 1..MaxLen }
Uniq(q) == \A i, j \in DOMAIN q : i # j => q[i].n # q[j].n
Tagged(q) == \A i \in 1..(Len(q) - 1) : q[i].g < q[i + 1].g
B8(x) == << x, 0, 0, 0, 0, 0, 0, 0 >>
Heads == { [c |-> "prim", p |-> p] : p \in {0, 1, 64, 65} } \cup { UniTy }
    \cup { [c |-> "enum", v |-> q] : q \in { x \in Seqs([n : Names, g : Tags]) : Uniq(x) /\ Tagged(x) } }
    \cup { [c |-> "union", v |-> << >>], [c |-> "tuple", f |-> << >>], [c |-> "struct", f |-> << >>] }
    \cup { [c |-> "array", t |-> r, len |-> k] : r \in Inner, k \in {0, 3} }
    \cup { [c |-> c, t |-> r, lo |-> B8(0), hi |-> B8(9)] : c \in {"list", "set"}, r \in Inner }
    \cup { [c |-> "map", k |-> k, t |-> r, lo |-> B8(0), hi |-> B8(9)] : k \in Inner, r \in Inner }
Init == ty \in Heads /\ pos = -1 /\ out = << >>
\* parts are added one at a time
Grow == /\ pos = -1
        /\ \/ ty.c = "union" /\ Len(ty.v) < MaxLen /\ \E n \in Names, g \in Tags, t \in Inner :
                /\ \A i \in DOMAIN ty.v : ty.v[i].n # n /\ ty.v[i].g < g
                /\ ty' = [ty EXCEPT !.v = Append(@, [n |-> n, g |-> g, t |-> t])]
           \/ ty.c = "tuple" /\ Len(ty.f) < MaxLen /\ \E t \in Inner : ty' = [ty EXCEPT !.f = Append(@, t)]
           \/ ty.c = "struct" /\ Len(ty.f) < MaxLen /\ \E n \in Names, t \in Inner :
                /\ \A i \in DOMAIN ty.f : ty.f[i].n # n
                /\ ty' = [ty EXCEPT !.f = Append(@, [n |-> n, t |-> t])]
        /\ UNCHANGED << pos, out >>
Whole == (ty.c = "union" => ty.v # << >>) /\ (ty.c \in {"tuple", "struct"} => ty.f # << >>)
Start == pos = -1 /\ Whole /\ pos' = 0 /\ PrintT("SCN " \o ToJson(ty)) /\ UNCHANGED << ty, out >>
Step == pos >= 0 /\ At(ty, pos) # << >> /\ out' = Append(out, [t |-> At(ty, pos)[1], c |-> CaseAt(ty, pos)[1]]) /\ pos' = pos + 1 /\ UNCHANGED ty
Next == Grow \/ Start \/ Step
Spec == Init /\ [][Next]_vars
Done == pos >= 0 /\ At(ty, pos) = << >>
Listed == Done => out = Components(ty) /\ pos = Len(Refs(ty))
\* labels tell the components apart
Labels == Done => \A i, j \in 1..Len(out) : i # j => out[i].c # out[j].c
\* every type is of exactly one kind
Kinds == Whole => Cardinality({ k \in {"compound", "primitive", "collection", "newtype", "option"} : Is_(ty)[k] }) = 1
\* names and tags lead to each other, and to the component
Lookups == Whole => \A i \in DOMAIN Vars(ty) :
              LET v == Vars(ty)[i] IN ByName(ty, v.n) = << v >> /\ ByTag(ty, v.g) = << v >> /\ (ty.c = "union" => At(ty, i - 1) = << v.t >>)
Fields == (Whole /\ ty.c = "struct") => \A i \in DOMAIN ty.f : FieldTy(ty, ty.f[i].n) = At(ty, i - 1)
=============================================================================
