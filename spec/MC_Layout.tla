------------------------------ MODULE MC_Layout ------------------------------
(* The component tree is produced by a stack machine, one entry at a time:    *)
(* the frames hold what is still to be listed at each level of nesting.       *)
(* Explored for every small type system; what the machine lists is what the   *)
(* recursive definition says.                                                 *)
EXTENDS SLayout, TLC, Json
CONSTANTS Depth
VARIABLES lvl, sys, D, N, stack, out
vars == << lvl, sys, D, N, stack, out >>

\* a type with everything it needs
R(x) == [r |-> "id", id |-> x.id]
Make(name, ty, parts) ==
    LET id == IF name = "" THEN SemIdU(ty) ELSE SemId(name, ty) IN
    [id |-> id, defs |-> UNION { p.defs : p \in parts } \cup { [id |-> id, ty |-> ty] },
     syms |-> UNION { p.syms : p \in parts } \cup (IF name = "" THEN {} ELSE { [id |-> id, lib |-> "L", name |-> name] })]
B(n) == LEOf(n, 8)
VT(n, g, x) == [n |-> n, g |-> g, t |-> R(x)]
F(n, x) == [n |-> n, t |-> R(x)]
Chars == [c |-> "enum", v |-> << [n |-> "a", g |-> 65], [n |-> "b", g |-> 66] >>]
U8 == Make("", U8Ty, {})
Unit == Make("", UnitTy, {})
Uni == Make("", UniTy, {})
CharE == Make("", Chars, {})
CharN == Make("Chars", Chars, {})
Flags == Make("Flags", [c |-> "enum", v |-> << [n |-> "a", g |-> 0], [n |-> "b", g |-> 200] >>], {})
Leaves == { U8, Make("", ByteTy, {}), Unit, Uni, CharE, CharN, Flags }
ListOf(n, x) == Make(n, [c |-> "list", t |-> R(x), lo |-> B(0), hi |-> B(255)], {x})
One(x) == \* definitions around one type
    { Make(n, [c |-> "tuple", f |-> << R(x) >>], {x}) : n \in {"", "Wrap"} }
    \cup { Make(n, [c |-> "union", v |-> << VT("none", 0, Unit), VT("some", 1, x) >>], {Unit, x}) : n \in {"", "Opt"} }
    \cup { Make("", [c |-> "union", v |-> << VT("none", 0, Unit), VT("some", 2, x) >>], {Unit, x}) }
    \cup { Make("Rec", [c |-> "struct", f |-> << F("a", x) >>], {x}) }
    \cup { Make("", [c |-> "array", t |-> R(x), len |-> 3], {x}), ListOf("", x), ListOf("Seq", x), Make("", [c |-> "set", t |-> R(x), lo |-> B(1), hi |-> B(65535)], {x}) }
Two(x, y) == \* ... around two
    { Make("", [c |-> "tuple", f |-> << R(x), R(y) >>], {x, y}),
      Make("", [c |-> "struct", f |-> << F("a", x), F("b", y) >>], {x, y}),
      Make("Uni", [c |-> "union", v |-> << VT("a", 3, x), VT("b", 7, y) >>], {x, y}),
      Make("", [c |-> "map", k |-> R(x), t |-> R(y), lo |-> B(0), hi |-> B(9)], {x, y}) }
L1 == UNION { One(x) : x \in Leaves } \cup UNION { Two(x, y) : x \in {U8, CharN}, y \in {Unit, CharN} }
\* restricted strings: a character, then a list of characters
Strings == UNION { Two(c, ListOf("", x)) : c \in {CharE, CharN, Flags}, x \in {CharE, CharN, Flags, U8} }
Simple(x) == \E d \in x.defs : d.id = x.id /\ \A r \in Range(Refs(d.ty)) : r.id \in {U8.id, CharN.id, Unit.id}
Pick == { x \in L1 : Simple(x) }

SeqOf(S) == LET q == SortStr({ x.id : x \in S }) IN [i \in 1..Len(q) |-> CHOOSE x \in S : x.id = q[i]]
Obj(x) == [types |-> SeqOf(x.defs), syms |-> SeqOf(x.syms)]
Pending(id, item, depth) == [id |-> id, item |-> item, depth |-> depth, w |-> << >>]

\* a type grows from a leaf, and is then listed
Init == lvl = 0 /\ sys \in Leaves /\ D = << >> /\ N = << >> /\ stack = << >> /\ out = << >>
Around == One(sys)
          \cup (IF lvl = 0 /\ sys \in {U8, CharN} THEN UNION { Two(sys, y) : y \in {Unit, CharN} } ELSE {})
          \* restricted strings: a character, then a list of characters
          \cup (IF lvl = 0 /\ sys \in {CharE, CharN, Flags} THEN UNION { Two(sys, ListOf("", x)) : x \in {CharE, CharN, Flags, U8} } ELSE {})
          \cup (IF lvl = 1 /\ Simple(sys) THEN Two(sys, U8) \cup Two(CharN, sys) \cup (IF Depth > 2 THEN UNION { Two(sys, y) : y \in Pick } ELSE {}) ELSE {})
Grow == /\ lvl < Depth /\ lvl' = lvl + 1 /\ sys' \in Around
        /\ UNCHANGED << D, N, stack, out >>
Start == /\ lvl <= Depth /\ lvl' = 100
         /\ D' = Defs(Obj(sys)) /\ N' = Names(Obj(sys))
         /\ stack' = << << Pending(sys.id, NoItem, 0) >> >>
         /\ UNCHANGED << sys, out >>
Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
Visit == /\ stack # << >> /\ Top # << >>
         /\ LET n == Top[1]
                ty == D[n.id]
            IN IF Wrapper(ty)
               THEN /\ stack' = Append(Below, << [[n EXCEPT !.id = Inside(ty)] EXCEPT !.w = Append(@, Mark(ty, N[n.id]))] >> \o Tail(Top))
                    /\ UNCHANGED out
               ELSE /\ out' = Append(out, [depth |-> n.depth, id |-> n.id, f |-> N[n.id], item |-> n.item, w |-> n.w \o StrMark(D, N, ty)])
                    /\ LET p == Parts(D, N, ty) IN
                       stack' = Append(Append(Below, Tail(Top)), [i \in 1..Len(p) |-> Pending(p[i].id, p[i].item, n.depth + 1)])
         /\ UNCHANGED << lvl, sys, D, N >>
Leave == stack # << >> /\ Top = << >> /\ stack' = Below /\ UNCHANGED << lvl, sys, D, N, out >>
Next == Grow \/ Start \/ Visit \/ Leave
Spec == Init /\ [][Next]_vars

Done == lvl = 100 /\ stack = << >>
Faithful == Done => out = Walk(D, N, sys.id, NoItem, 0, << >>)
\* a frame holds entries of one depth: that of the frame
Level == \A i \in 1..Len(stack) : \A j \in 1..Len(stack[i]) : stack[i][j].depth = i - 1
\* every entry but the first is a component of the last one which is less deep by one
Parent(i) == CHOOSE j \in 1..i - 1 : out[j].depth = out[i].depth - 1 /\ \A k \in j + 1..i - 1 : out[k].depth >= out[i].depth
Nested == \A i \in 1..Len(out) :
            IF i = 1 THEN out[i].depth = 0 /\ out[i].item = NoItem
            ELSE /\ out[i].depth > 0 /\ out[i].depth <= out[i - 1].depth + 1
                 /\ out[i].item \in Range(Items(D[out[Parent(i)].id]))
\* labels of siblings differ, also after folding
Once == Done => \A i, j \in 2..Len(out) : (i < j /\ Parent(i) = Parent(j)) => out[i].item # out[j].item
\* nothing is left out: the components of every open entry are listed
Whole == Done => \A i \in 1..Len(out) : Cardinality({ j \in 2..Len(out) : Parent(j) = i }) = Len(Parts(D, N, D[out[i].id]))
Dump == ~Done \/ PrintT("SCN " \o ToJson([types |-> Obj(sys).types, syms |-> Obj(sys).syms, root |-> sys.id]))
=============================================================================
