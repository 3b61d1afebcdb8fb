-------------------------------- MODULE SLoad --------------------------------
(* Reading stored bytes back: which byte strings are the stored form of an     *)
(* object, and of which.  Written independently of Bin (module SArt), against  *)
(* which MC_Art checks it.                                                     *)
EXTENDS SArt

No == [k |-> "err"]
At(v, i) == [k |-> "ok", v |-> v, i |-> i]
\* one byte; n bytes
U8(b, i) == IF i > Len(b) THEN No ELSE At(b[i], i + 1)
Raw(b, i, n) == IF i + n - 1 > Len(b) THEN No ELSE At(SubSeq(b, i, i + n - 1), i + n)
Hex32(b, i) == LET r == Raw(b, i, 32) IN IF r.k = "ok" THEN At(BytesHex(r.v), r.i) ELSE No
\* names: 1 to 100 characters, letters, digits and underscores, no digit first
Upper == 65..90
Lower == 97..122
Digit == 48..57
NameAt(first, b, i) ==
    LET n == U8(b, i) IN
    IF n.k # "ok" \/ n.v = 0 \/ n.v > 100 THEN No
    ELSE LET r == Raw(b, i + 1, n.v) IN
         IF r.k = "ok" /\ r.v[1] \in first \cup {95} /\ \A j \in 2..n.v : r.v[j] \in Upper \cup Lower \cup Digit \cup {95}
         THEN At(BytesStr(r.v), r.i) ELSE No
Caps(b, i) == NameAt(Upper, b, i)
Small(b, i) == NameAt(Lower, b, i)
\* n items read by P
RECURSIVE Many(_, _, _, _)
Many(P(_, _), n, b, i) ==
    IF n = 0 THEN At(<< >>, i)
    ELSE LET h == P(b, i) IN
         IF h.k # "ok" THEN No
         ELSE LET t == Many(P, n - 1, b, h.i) IN IF t.k = "ok" THEN At(<< h.v >> \o t.v, t.i) ELSE No
\* a count of w bytes (counts above 2^20 are refused: nothing in a trace is that long), then the items
Counted(P(_, _), w, b, i) ==
    LET c == Raw(b, i, w) IN
    IF c.k # "ok" THEN No
    ELSE LET n == LEVal(c.v) IN IF n > Len(b) THEN No ELSE Many(P, n, b, c.i)
Then2(r, Q(_), mk(_, _)) == IF r.k # "ok" THEN No ELSE LET s == Q(r.i) IN IF s.k = "ok" THEN At(mk(r.v, s.v), s.i) ELSE No
Rising(q, LT(_, _)) == \A j \in 1..Len(q) - 1 : LT(q[j], q[j + 1])

\* kind: "lib" (references carry their depth), "sym", "sys"
RECURSIVE TyAt(_, _, _, _)
RefAt(kind, d, b, i) ==
    IF kind = "sys" THEN LET h == Hex32(b, i) IN IF h.k = "ok" THEN At([r |-> "id", id |-> h.v], h.i) ELSE No
    ELSE LET t == U8(b, i) IN
         IF t.k # "ok" THEN No
         ELSE LET c == IF kind = "lib" /\ d = 3 THEN t.v + 1 ELSE t.v
                  j == i + 1
              IN CASE c = 0 -> (LET y == TyAt(kind, d + 1, b, j) IN
                                IF y.k = "ok" THEN At([r |-> IF kind = "lib" THEN "in" ELSE "em", ty |-> y.v], y.i) ELSE No)
                   [] c = 1 /\ kind = "lib" -> (LET h == Hex32(b, j) IN IF h.k = "ok" THEN At([r |-> "nm", id |-> h.v], h.i) ELSE No)
                   [] c = 2 /\ kind = "lib" -> Then2(Hex32(b, j), LAMBDA k : Hex32(b, k), LAMBDA x, y : [r |-> "ex", lib |-> x, id |-> y])
                   [] c = 1 /\ kind = "sym" -> (LET h == Caps(b, j) IN IF h.k = "ok" THEN At([r |-> "tn", name |-> h.v], h.i) ELSE No)
                   [] c = 2 /\ kind = "sym" ->
                        Then2(Then2(Caps(b, j), LAMBDA k : Caps(b, k), LAMBDA x, y : << x, y >>),
                              LAMBDA k : Then2(Hex32(b, k), LAMBDA m : Hex32(b, m), LAMBDA x, y : << x, y >>),
                              LAMBDA x, y : [r |-> "tx", lib |-> x[1], name |-> x[2], lid |-> y[1], id |-> y[2]])
                   [] OTHER -> No
TyAt(kind, d, b, i) ==
    LET c == U8(b, i)
        j == i + 1
        Ref(x, k) == RefAt(kind, d, x, k)
        U64(k) == Raw(b, k, 8)
        Coll(r, mk(_, _, _)) == Then2(Then2(r, U64, LAMBDA t, lo : << t, lo >>), U64, LAMBDA x, hi : mk(x[1], x[2], hi))
    IN IF c.k # "ok" THEN No
       ELSE CASE c.v = 0 -> (LET p == U8(b, j) IN IF p.k = "ok" THEN At([c |-> "prim", p |-> p.v], p.i) ELSE No)
              [] c.v = 1 -> At([c |-> "uni"], j)
              [] c.v = 3 ->
                   (LET r == Counted(LAMBDA x, k : Then2(Small(x, k), LAMBDA m : U8(x, m), LAMBDA n, g : [n |-> n, g |-> g]), 1, b, j) IN
                    IF r.k = "ok" /\ r.v # << >> /\ Rising(r.v, LAMBDA x, y : x.g < y.g) THEN At([c |-> "enum", v |-> r.v], r.i) ELSE No)
              [] c.v = 4 ->
                   (LET r == Counted(LAMBDA x, k : Then2(Then2(U8(x, k), LAMBDA m : Small(x, m), LAMBDA g, n : << g, n >>), LAMBDA m : Ref(x, m),
                                                         LAMBDA h, t : [n |-> h[2], g |-> h[1], t |-> t]), 1, b, j) IN
                    IF r.k = "ok" /\ r.v # << >> /\ Rising(r.v, LAMBDA x, y : x.g < y.g) THEN At([c |-> "union", v |-> r.v], r.i) ELSE No)
              [] c.v = 5 -> (LET r == Counted(Ref, 1, b, j) IN IF r.k = "ok" /\ r.v # << >> THEN At([c |-> "tuple", f |-> r.v], r.i) ELSE No)
              [] c.v = 6 -> (LET r == Counted(LAMBDA x, k : Then2(Small(x, k), LAMBDA m : Ref(x, m), LAMBDA n, t : [n |-> n, t |-> t]), 1, b, j) IN
                             IF r.k = "ok" /\ r.v # << >> THEN At([c |-> "struct", f |-> r.v], r.i) ELSE No)
              [] c.v = 7 -> Then2(Ref(b, j), LAMBDA k : Raw(b, k, 2), LAMBDA t, n : [c |-> "array", t |-> t, len |-> n[1] + 256 * n[2]])
              [] c.v \in {8, 9} -> Coll(Ref(b, j), LAMBDA t, lo, hi : [c |-> IF c.v = 8 THEN "list" ELSE "set", t |-> t, lo |-> lo, hi |-> hi])
              [] c.v = 10 -> Coll(Then2(Ref(b, j), LAMBDA k : Ref(b, k), LAMBDA k, t : << k, t >>),
                                  LAMBDA t, lo, hi : [c |-> "map", k |-> t[1], t |-> t[2], lo |-> lo, hi |-> hi])
              [] OTHER -> No

DepAt(b, i) == Then2(Hex32(b, i), LAMBDA k : Caps(b, k), LAMBDA x, n : [id |-> x, name |-> n])
ExtAt(b, i) ==
    LET r == Then2(Caps(b, i), LAMBDA k : Counted(LAMBDA x, m : Then2(Hex32(x, m), LAMBDA y : Caps(x, y), LAMBDA h, n : [id |-> h, n |-> n]), 2, b, k),
                   LAMBDA n, t : [lib |-> n, types |-> t])
    IN IF r.k = "ok" /\ Rising(r.v.types, LAMBDA x, y : StrLT(x.id, y.id)) THEN r ELSE No
SysAt(b, i) ==
    LET r == Counted(LAMBDA x, k : Then2(Hex32(x, k), LAMBDA m : TyAt("sys", 0, x, m), LAMBDA h, t : [id |-> h, ty |-> t]), 3, b, i)
    IN IF r.k = "ok" /\ Rising(r.v, LAMBDA x, y : StrLT(x.id, y.id)) THEN r ELSE No
SymbolAt(b, i) ==
    LET h == Hex32(b, i) IN
    IF h.k # "ok" THEN No
    ELSE LET o == U8(b, h.i) IN
         IF o.k # "ok" THEN No
         ELSE CASE o.v = 0 -> At([id |-> h.v, lib |-> "", name |-> ""], o.i)
                [] o.v = 1 -> Then2(Caps(b, o.i), LAMBDA k : Caps(b, k), LAMBDA x, n : [id |-> h.v, lib |-> x, name |-> n])
                [] OTHER -> No
SymLT(x, y) == StrLT(x.id, y.id) \/ (x.id = y.id /\ (StrLT(x.lib, y.lib) \/ (x.lib = y.lib /\ StrLT(x.name, y.name))))
DepsRise(q) == Rising(q, LAMBDA x, y : StrLT(x.id, y.id))
LibAt(kind, b, i) ==
    LET n == Caps(b, i)
        d == IF n.k = "ok" THEN Counted(DepAt, 1, b, n.i) ELSE No
        x == IF d.k = "ok" THEN Counted(ExtAt, 1, b, d.i) ELSE No
        t == IF x.k = "ok" THEN Counted(LAMBDA y, k : Then2(Caps(y, k), LAMBDA m : TyAt(kind, 0, y, m), LAMBDA h, u : [n |-> h, ty |-> u]),
                                        IF kind = "lib" THEN 2 ELSE 8, b, x.i) ELSE No
    IN IF t.k = "ok" /\ t.v # << >> /\ DepsRise(d.v) /\ Rising(x.v, LAMBDA u, w : StrLT(u.lib, w.lib)) /\ Rising(t.v, LAMBDA u, w : StrLT(u.n, w.n))
       THEN At([name |-> n.v, deps |-> d.v, ext |-> x.v, types |-> t.v], t.i) ELSE No
SsysAt(b, i) ==
    LET d == Counted(DepAt, 2, b, i)
        s == IF d.k = "ok" THEN Counted(SymbolAt, 3, b, d.i) ELSE No
        t == IF s.k = "ok" THEN SysAt(b, s.i) ELSE No
    IN IF t.k = "ok" /\ DepsRise(d.v) /\ Rising(s.v, SymLT) THEN At([libs |-> d.v, syms |-> s.v, types |-> t.v], t.i) ELSE No
ObjAt(kind, b) ==
    CASE kind \in {"lib", "sym"} -> LibAt(kind, b, 1)
      [] kind = "sys" -> (LET r == SysAt(b, 1) IN IF r.k = "ok" THEN At([types |-> r.v], r.i) ELSE No)
      [] kind = "ssys" -> SsysAt(b, 1)
\* all of the bytes are one object
Load(kind, b) == LET r == ObjAt(kind, b) IN IF r.k = "ok" /\ r.i = Len(b) + 1 THEN [k |-> "ok", v |-> r.v] ELSE No
=============================================================================
