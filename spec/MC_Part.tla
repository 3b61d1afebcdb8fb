------------------------------- MODULE MC_Part -------------------------------
(* Small values, wrapped and unwrapped step by step; what each reader gives.  *)
EXTENDS SPart, TLC, Json, FiniteSets
CONSTANTS Depth
P == INSTANCE SPath
VARIABLES v, lvl, cur
vars == << v, lvl, cur >>
B8(x) == << x, 0, 0, 0, 0, 0, 0, 0 >>
N(x) == [v |-> "num", k |-> "u", b |-> B8(x)]
Unit == [v |-> "unit"]
Leaf == { Unit, N(0), N(7), [v |-> "num", k |-> "u", b |-> << 0, 1, 0, 0, 0, 0, 0, 0 >>], [v |-> "num", k |-> "i", b |-> B8(7)],
          [v |-> "num", k |-> "bu", b |-> [i \in 1..128 |-> IF i = 1 THEN 7 ELSE 0]],
          [v |-> "str", b |-> << 97 >>], [v |-> "bytes", b |-> << 97 >>], [v |-> "bytes", b |-> << 255 >>],
          [v |-> "enum", t |-> [k |-> "n", n |-> "mid"]], [v |-> "enum", t |-> [k |-> "o", g |-> 7]], [v |-> "enum", t |-> [k |-> "o", g |-> 200]] }
Tags == { [k |-> "n", n |-> "none"], [k |-> "n", n |-> "some"], [k |-> "o", g |-> 0], [k |-> "o", g |-> 1], [k |-> "o", g |-> 2] }
Two == { Unit, N(7), [v |-> "enum", t |-> [k |-> "o", g |-> 7]], [v |-> "enum", t |-> [k |-> "n", n |-> "mid"]] }
Over(x) == { [v |-> "tuple", f |-> << x >>] } \cup { [v |-> "tuple", f |-> << x, y >>] : y \in Two }
    \cup { [v |-> c, f |-> q] : c \in {"list", "set"}, q \in { << x >>, << x, N(7) >>, << [v |-> "enum", t |-> [k |-> "o", g |-> 7]], x >> } }
    \cup { [v |-> "struct", f |-> << [n |-> "a", x |-> x] >>], [v |-> "struct", f |-> << [n |-> "b", x |-> Unit], [n |-> "a", x |-> x] >>] }
    \cup { [v |-> "union", t |-> t, x |-> x] : t \in Tags }
    \cup { [v |-> "map", f |-> << [k |-> x, x |-> N(7)] >>] } \cup { [v |-> "map", f |-> << [k |-> N(7), x |-> Unit], [k |-> k, x |-> x] >>] : k \in Two }
Empty == { [v |-> c, f |-> << >>] : c \in {"tuple", "list", "set", "struct", "map"} }
Init == v \in Leaf \cup Empty /\ lvl = 0 /\ cur = v
Grow == lvl < Depth /\ lvl' = lvl + 1 /\ v' \in Over(v) /\ cur' = v'
Start == lvl < 90 /\ lvl' = 90 /\ PrintT("SCN " \o ToJson(v)) /\ UNCHANGED << v, cur >>
\* one wrapper is taken off
Peel == lvl = 90 /\ cur.v = "tuple" /\ Len(cur.f) = 1 /\ cur' = cur.f[1] /\ UNCHANGED << v, lvl >>
Next == Grow \/ Start \/ Peel
Spec == Init /\ [][Next]_vars
Readers == [option |-> AsOption(v), num |-> AsNum(v), bytes |-> AsBytes(v), tag |-> AsTag(v), union |-> AsUnion(v),
            tuple |-> TupleAt(v, 0), pos |-> ItemAt(v, 0)]
\* wrappers never matter
Through == Skip(cur) = Skip(v) /\ AsString(cur) = AsString(v) /\ AsOption(cur) = AsOption(v) /\ AsUint(cur, 1) = AsUint(v, 1) /\ TupleAt(cur, 1) = TupleAt(v, 1)
\* at most one reader applies (an option is a union as well)
Exclusive == Cardinality({ k \in DOMAIN Readers \ {"option"} : Readers[k].k = "ok" }) <= 1 /\ (AsOption(v).k = "ok" => AsUnion(v).k = "ok")
\* a narrower number is the same number
Widths == \A w \in {1, 2, 4} : AsUint(v, w).k = "ok" => LECmp(AsUint(v, w).v, AsUint(v, 8).v) = 0
\* a part which is there is what the path of one step addresses
AsPath == LET x == Skip(v) IN
    /\ \A i \in 0..2 : /\ TupleAt(v, i).k = "ok" => P!StepV(x, [s |-> "u", i |-> i]) = P!OkP(TupleAt(v, i).v)
                       /\ (ItemAt(v, i).k = "ok") = (P!StepV(x, [s |-> "i", b |-> << i, 0, 0, 0 >>]).k = "ok")
    /\ \A n \in {"a", "b"} : FieldAt(v, n).k = "ok" => P!StepV(x, [s |-> "f", n |-> n]) = P!OkP(FieldAt(v, n).v)
    /\ KeyAt(v, N(7)).k = "ok" => P!StepV(x, [s |-> "k", key |-> [k |-> "num", b |-> B8(7)]]).k = "ok"
Reflexive == VEq(v, v) /\ VEq(cur, cur)
=============================================================================
