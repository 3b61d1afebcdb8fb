------------------------------- MODULE SPath -------------------------------
(* Paths: one step through a value or through a type definition, and what a  *)
(* whole path addresses.                                                     *)
EXTENDS SBytes
OkP(v) == [k |-> "ok", v |-> v]
ErrP(e) == [k |-> "err", e |-> e]
Find(q, P(_)) == LET S == { i \in DOMAIN q : P(q[i]) } IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

----------------------------------------------------------------------------
(* Values.  Step: [s |-> "f", n] field name, [s |-> "u", i] position,        *)
(* [s |-> "i", b] index as four LE bytes, [s |-> "k", key] map key,          *)
(* key: [k |-> "num", b], [k |-> "blob", b], [k |-> "str", b].               *)
KeyMatch(key, v) ==
    CASE key.k = "num" -> \/ v.v = "num" /\ v.k = "u" /\ LECmp(key.b, v.b) = 0
                          \/ v.v = "enum" /\ v.t.k = "o" /\ LECmp(key.b, << v.t.g >>) = 0
      [] key.k = "blob" -> v.v = "bytes" /\ v.b = key.b
      [] key.k = "str" -> v.v = "str" /\ v.b = key.b
StepV(v, s) ==
    CASE v.v = "tuple" /\ s.s = "u" ->
            IF s.i < Len(v.f) THEN OkP(v.f[s.i + 1]) ELSE ErrP(<< "FieldNoOutOfBounds", s.i, Len(v.f) >>)
      [] v.v = "struct" /\ s.s = "f" ->
            LET i == Find(v.f, LAMBDA x : x.n = s.n) IN IF i > 0 THEN OkP(v.f[i].x) ELSE ErrP(<< "UnknownFieldName", s.n >>)
      [] v.v \in {"list", "set"} /\ s.s = "i" ->
            IF LEVal(s.b) < Len(v.f) THEN OkP(v.f[LEVal(s.b) + 1]) ELSE ErrP(<< "CollectionIndexOutOfBounds", s.b, Len(v.f) >>)
      [] v.v = "map" /\ s.s = "k" ->
            LET i == Find(v.f, LAMBDA x : KeyMatch(s.key, x.k)) IN IF i > 0 THEN OkP(v.f[i].x) ELSE ErrP(<< "UnknownKey", s.key >>)
      [] OTHER -> ErrP(<< "TypeMismatch", s, v >>)
RECURSIVE WalkV(_, _)
WalkV(v, p) == IF p = << >> THEN OkP(v) ELSE LET r == StepV(v, Head(p)) IN IF r.k = "ok" THEN WalkV(r.v, Tail(p)) ELSE r

----------------------------------------------------------------------------
(* Types.  Step: [s |-> "f", n], [s |-> "u", i], [s |-> "v", n] variant name, *)
(* "ix" array item, "ls" list item, "st" set item, "mk", "mv".  A reference   *)
(* leads on only when the type is written in place.                          *)
StepT(t, s) ==
    LET named(n) == LET i == Find(t.v, LAMBDA x : x.n = n) IN IF i > 0 THEN << t.v[i].t >> ELSE << >>
        tagged(g) == LET i == Find(t.v, LAMBDA x : x.g = g) IN IF i > 0 THEN << t.v[i].t >> ELSE << >>
        ref == CASE t.c = "struct" /\ s.s = "f" -> LET i == Find(t.f, LAMBDA x : x.n = s.n) IN IF i > 0 THEN << t.f[i].t >> ELSE << >>
                 [] t.c = "struct" /\ s.s = "u" -> IF s.i < Len(t.f) THEN << t.f[s.i + 1].t >> ELSE << >>
                 [] t.c = "tuple" /\ s.s = "u" -> IF s.i < Len(t.f) THEN << t.f[s.i + 1] >> ELSE << >>
                 [] t.c = "union" /\ s.s = "v" -> named(s.n)
                 [] t.c = "union" /\ s.s = "u" -> tagged(s.i)
                 [] t.c = "array" /\ s.s = "ix" -> << t.t >>
                 [] t.c = "list" /\ s.s = "ls" -> << t.t >>
                 [] t.c = "set" /\ s.s = "st" -> << t.t >>
                 [] t.c = "map" /\ s.s = "mk" -> << t.k >>
                 [] t.c = "map" /\ s.s = "mv" -> << t.t >>
                 [] OTHER -> << >>
    IN IF ref # << >> /\ ref[1].r = "em" THEN OkP(ref[1].ty) ELSE ErrP("nopath")
\* on failure: the steps up to and including the one which does not apply
RECURSIVE WalkTAt(_, _, _)
WalkTAt(t, p, n) == IF n = Len(p) THEN OkP(t)
                    ELSE LET r == StepT(t, p[n + 1]) IN IF r.k = "ok" THEN WalkTAt(r.v, p, n + 1) ELSE ErrP(SubSeq(p, 1, n + 1))
WalkT(t, p) == WalkTAt(t, p, 0)
=============================================================================
