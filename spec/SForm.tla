-------------------------------- MODULE SForm --------------------------------
(* Text forms of values: the document a value is written as, how documents    *)
(* are read back, and the native notation.                                    *)
(*                                                                            *)
(* A document is a record with field d: "null"; "bool" (x); "num" (k: "u" for  *)
(* non-negative, "i" for negative numbers; b: 8 LE bytes); "real", "time" and  *)
(* "str" (b: the text); "seq" (f); "map" (f: <<[k, x]>> of documents).         *)
EXTENDS SVal

DNull == [d |-> "null"]
DNum(k, b) == [d |-> "num", k |-> k, b |-> b]
DStr(b) == [d |-> "str", b |-> b]
DSeq(f) == [d |-> "seq", f |-> f]
DMap(f) == [d |-> "map", f |-> f]

Rev(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
HexText(b) == StrBytes(BytesHex(b))
HexDigit(x) == x \in 48..57 \/ x \in 97..102 \/ x \in 65..70
HexVal(x) == IF x < 58 THEN x - 48 ELSE IF x < 71 THEN x - 55 ELSE x - 87
\* the text of a 1024-bit number
BigText(b) == Len(b) = 256 /\ \A i \in 1..256 : HexDigit(b[i])
BigOf(b) == [i \in 1..128 |-> 16 * HexVal(b[257 - 2 * i]) + HexVal(b[258 - 2 * i])]

\* names of fields and variants
Letter(x) == x \in 65..90 \/ x \in 97..122 \/ x = 95
NameText(b) == Len(b) \in 1..100 /\ (b[1] \in 97..122 \/ b[1] = 95) /\ \A i \in 1..Len(b) : Letter(b[i]) \/ b[i] \in 48..57

\* ---- writing ----------------------------------------------------------------------
DTag(t) == IF t.k = "n" THEN DStr(StrBytes(t.n)) ELSE DNum("u", << t.g, 0, 0, 0, 0, 0, 0, 0 >>)
RECURSIVE Doc(_)
Docs(f) == [i \in 1..Len(f) |-> Doc(f[i])]
Doc(v) ==
    CASE v.v = "unit" -> DNull
      [] v.v = "num" -> IF v.k \in {"bu", "bi"} THEN DStr(HexText(Rev(v.b)))
                        ELSE DNum(IF Neg(v) THEN "i" ELSE "u", v.b)
      [] v.v = "str" -> DStr(v.b)
      [] v.v = "bytes" -> DStr(HexText(v.b))
      [] v.v = "enum" -> DTag(v.t)
      [] v.v = "union" -> DSeq(<< DTag(v.t), Doc(v.x) >>)
      [] v.v \in {"tuple", "list", "set"} -> DSeq(Docs(v.f))
      [] v.v = "map" -> DSeq([i \in 1..Len(v.f) |-> DSeq(<< Doc(v.f[i].k), Doc(v.f[i].x) >>)])
      [] v.v = "struct" -> DMap([i \in 1..Len(v.f) |-> [k |-> DStr(StrBytes(v.f[i].n)), x |-> Doc(v.f[i].x)]])
\* what TOML cannot hold: null and numbers above 2^63
RECURSIVE TomlDoc(_)
TomlDoc(d) ==
    CASE d.d = "null" -> FALSE
      [] d.d = "num" -> d.k = "i" \/ d.b[8] < 128
      [] d.d = "seq" -> \A i \in 1..Len(d.f) : TomlDoc(d.f[i])
      [] d.d = "map" -> \A i \in 1..Len(d.f) : TomlDoc(d.f[i].k) /\ TomlDoc(d.f[i].x)
      [] OTHER -> TRUE
\* documents are equal up to the order of the fields of maps
RECURSIVE SameDoc(_, _)
SameDoc(a, b) ==
    IF a.d # b.d THEN FALSE
    ELSE CASE a.d = "seq" -> Len(a.f) = Len(b.f) /\ \A i \in 1..Len(a.f) : SameDoc(a.f[i], b.f[i])
           [] a.d = "map" -> Len(a.f) = Len(b.f) /\ \A i \in 1..Len(a.f) : \E j \in 1..Len(b.f) : a.f[i].k = b.f[j].k /\ SameDoc(a.f[i].x, b.f[j].x)
           [] OTHER -> a = b

\* ---- reading ----------------------------------------------------------------------
\* by deserialization
IsTagDoc(d) == \/ d.d = "str" /\ NameText(d.b)
               \/ d.d = "num" /\ d.k = "u" /\ LESig(d.b) <= 1
TagOf(d) == IF d.d = "str" THEN [k |-> "n", n |-> BytesStr(d.b)] ELSE [k |-> "o", g |-> d.b[1]]
RECURSIVE Read(_)
Read(d) ==
    CASE d.d = "null" -> Ok(VUnit)
      [] d.d = "num" -> Ok([v |-> "num", k |-> d.k, b |-> d.b])
      [] d.d = "str" -> Ok(IF BigText(d.b) THEN [v |-> "num", k |-> "bu", b |-> BigOf(d.b)] ELSE VStr(d.b))
      [] d.d = "seq" ->
            LET rs == [i \in 1..Len(d.f) |-> Read(d.f[i])] IN
            IF ~AllOk(rs) THEN Err
            ELSE IF Len(d.f) = 2 /\ IsTagDoc(d.f[1]) THEN Ok([v |-> "union", t |-> TagOf(d.f[1]), x |-> rs[2].v])
            ELSE Ok(VSeq("list", Vals(rs)))
      [] d.d = "map" ->
            LET rs == [i \in 1..Len(d.f) |-> Read(d.f[i].x)] IN
            IF AllOk(rs) /\ \A i \in 1..Len(d.f) : d.f[i].k.d = "str" /\ NameText(d.f[i].k.b)
            THEN Ok([v |-> "struct", f |-> [i \in 1..Len(d.f) |-> [n |-> BytesStr(d.f[i].k.b), x |-> rs[i].v]]])
            ELSE Err
      [] OTHER -> Err
\* by conversion of foreign data, which never fails
RECURSIVE Conv(_)
Conv(d) ==
    CASE d.d = "null" -> VUnit
      [] d.d = "bool" -> [v |-> "enum", t |-> [k |-> "o", g |-> IF d.x THEN 1 ELSE 0]]
      [] d.d = "num" -> [v |-> "num", k |-> d.k, b |-> d.b]
      [] d.d \in {"str", "real", "time"} -> VStr(d.b)
      [] d.d = "seq" -> VSeq("list", [i \in 1..Len(d.f) |-> Conv(d.f[i])])
      [] d.d = "map" -> [v |-> "map", f |-> [i \in 1..Len(d.f) |-> [k |-> Conv(d.f[i].k), x |-> Conv(d.f[i].x)]]]
\* formats with signed numbers only read all of them as such
RECURSIVE Plain(_)
Plain(v) ==
    CASE v.v = "num" -> IF v.k = "i" /\ ~Neg(v) THEN [v EXCEPT !.k = "u"] ELSE v
      [] v.v = "list" -> VSeq("list", [i \in 1..Len(v.f) |-> Plain(v.f[i])])
      [] v.v = "map" -> [v |-> "map", f |-> [i \in 1..Len(v.f) |-> [k |-> Plain(v.f[i].k), x |-> Plain(v.f[i].x)]]]
      [] v.v = "struct" -> [v |-> "struct", f |-> [i \in 1..Len(v.f) |-> [n |-> v.f[i].n, x |-> Plain(v.f[i].x)]]]
      [] v.v = "union" -> [v EXCEPT !.x = Plain(v.x)]
      [] OTHER -> v
ReadAs(ty, d) == LET r == Read(d) IN IF r.k = "ok" THEN Typify(ty, r.v) ELSE Err
ConvAs(ty, d) == Typify(ty, Conv(d))
\* values whose text form is that of another value (known findings): bytes are written as hexadecimal text,
\* numbers above 64 bits as 256 hexadecimal digits without a sign
RECURSIVE Lossy(_)
Lossy(v) ==
    CASE v.v = "bytes" -> v.b # << >>
      [] v.v = "num" -> v.k = "bi" /\ Neg(v)
      [] v.v = "str" -> BigText(v.b)
      [] v.v \in {"tuple", "list", "set"} -> \E i \in 1..Len(v.f) : Lossy(v.f[i])
      [] v.v = "struct" -> \E i \in 1..Len(v.f) : Lossy(v.f[i].x)
      [] v.v = "map" -> \E i \in 1..Len(v.f) : Lossy(v.f[i].k) \/ Lossy(v.f[i].x)
      [] v.v = "union" -> Lossy(v.x)
      [] OTHER -> FALSE
\* conversion does not read numbers from text
RECURSIVE HasBig(_)
HasBig(v) ==
    CASE v.v = "num" -> Len(v.b) > 8
      [] v.v \in {"tuple", "list", "set"} -> \E i \in 1..Len(v.f) : HasBig(v.f[i])
      [] v.v = "struct" -> \E i \in 1..Len(v.f) : HasBig(v.f[i].x)
      [] v.v = "map" -> \E i \in 1..Len(v.f) : HasBig(v.f[i].k) \/ HasBig(v.f[i].x)
      [] v.v = "union" -> HasBig(v.x)
      [] OTHER -> FALSE

\* ---- the native notation ----------------------------------------------------------
\* long division by ten, most significant byte first
RECURSIVE Div10(_, _), Digits(_, _)
Div10(b, r) == IF b = << >> THEN << << >>, r >>
               ELSE LET n == 256 * r + Head(b)
                        q == Div10(Tail(b), n % 10)
                    IN << << n \div 10 >> \o q[1], q[2] >>
Digits(b, acc) == LET q == Div10(b, 0)
                      t == << 48 + q[2] >> \o acc
                  IN IF \A i \in 1..Len(q[1]) : q[1][i] = 0 THEN t ELSE Digits(q[1], t)
Decimal(b) == Digits(Rev(b), << >>)
\* magnitude of a negative number
Magnitude(b) == IncAt([i \in 1..Len(b) |-> 255 - b[i]])
NumText(v) == IF Len(v.b) > 8 THEN StrBytes("0x") \o HexText(Rev(v.b))
              ELSE IF Neg(v) THEN << 45 >> \o Decimal(Magnitude(v.b)) ELSE Decimal(v.b)
Escaped(b) == Flat([i \in 1..Len(b) |-> IF b[i] \in {34, 92} THEN << 92, b[i] >> ELSE << b[i] >>])
TagText(t) == IF t.k = "n" THEN StrBytes(t.n) ELSE Decimal(<< t.g >>)
IsNone(v) == v.x.v = "unit" /\ (IF v.t.k = "n" THEN v.t.n = "none" ELSE v.t.g = 0)
Many(v) == v.v = "struct" \/ (v.v = "tuple" /\ Len(v.f) # 1)
Comma == << 44, 32 >>
Join(q) == Flat([i \in 1..Len(q) |-> IF i = 1 THEN q[i] ELSE Comma \o q[i]])
RECURSIVE Ston(_)
Paren(v) == IF Many(v) THEN << 40 >> \o Ston(v) \o << 41 >> ELSE Ston(v)
Parens(f) == Join([i \in 1..Len(f) |-> Paren(f[i])])
Ston(v) ==
    CASE v.v = "unit" -> StrBytes("(,)")
      [] v.v = "num" -> NumText(v)
      [] v.v = "str" -> << 34 >> \o Escaped(v.b) \o << 34 >>
      [] v.v = "bytes" -> StrBytes("0x") \o HexText(v.b)
      [] v.v = "enum" -> TagText(v.t)
      [] v.v = "union" -> IF IsNone(v) THEN StrBytes("~") ELSE Paren(v.x) \o << 46 >> \o TagText(v.t)
      [] v.v = "tuple" -> Parens(v.f)
      [] v.v = "list" -> << 91 >> \o Parens(v.f) \o << 93 >>
      [] v.v = "set" -> << 123 >> \o Parens(v.f) \o << 125 >>
      [] v.v = "map" -> << 123 >> \o Join([i \in 1..Len(v.f) |-> Ston(v.f[i].k) \o StrBytes(" -> ") \o Paren(v.f[i].x)]) \o << 125 >>
      [] v.v = "struct" -> Join([i \in 1..Len(v.f) |-> StrBytes(v.f[i].n) \o << 32 >> \o Paren(v.f[i].x)])
=============================================================================
