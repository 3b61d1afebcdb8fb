-------------------------------- MODULE SText --------------------------------
(* Text forms of identifiers: an optional kind prefix, the 32 bytes in a      *)
(* 64-letter alphabet, broken by dashes, and an optional checksum in words.   *)
(* Texts are sequences of bytes.                                              *)
EXTENDS SBytes, FiniteSets, Json

Words == JsonDeserialize("words.json")
Letters == StrBytes("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_~")
Kinds == {"semid", "stl", "sts"}

\* ---- 8-bit to 6-bit groups and back ------------------------------------------------
Group(b) ==  \* 1..3 bytes -> 2..4 letters
    LET x(i) == IF i <= Len(b) THEN b[i] ELSE 0
        n == << x(1) \div 4, (x(1) % 4) * 16 + x(2) \div 16, (x(2) % 16) * 4 + x(3) \div 64, x(3) % 64 >>
    IN SubSeq([i \in 1..4 |-> Letters[n[i] + 1]], 1, Len(b) + 1)
RECURSIVE Base(_)
Base(b) == IF b = << >> THEN << >>
           ELSE LET k == IF Len(b) < 3 THEN Len(b) ELSE 3 IN Group(SubSeq(b, 1, k)) \o Base(SubSeq(b, k + 1, Len(b)))
Value(c) == IF \E i \in 1..64 : Letters[i] = c THEN (CHOOSE i \in 1..64 : Letters[i] = c) - 1 ELSE 64
Bad == << -1 >>
Ungroup(q) ==   \* 2..4 six-bit numbers -> 1..3 bytes; the unused bits must be zero
    LET x(i) == IF i <= Len(q) THEN q[i] ELSE 0
        b == << x(1) * 4 + x(2) \div 16, (x(2) % 16) * 16 + x(3) \div 4, (x(3) % 4) * 64 + x(4) >>
    IN IF Len(q) = 1 \/ (Len(q) = 2 /\ x(2) % 16 # 0) \/ (Len(q) = 3 /\ x(3) % 4 # 0) THEN Bad ELSE SubSeq(b, 1, Len(q) - 1)
Unbase(t) ==
    LET v == [i \in 1..Len(t) |-> Value(t[i])]
        n == (Len(t) + 3) \div 4
        g == [k \in 1..n |-> Ungroup(SubSeq(v, 4 * k - 3, IF 4 * k < Len(t) THEN 4 * k ELSE Len(t)))]
    IN IF (\E i \in 1..Len(v) : v[i] = 64) \/ (\E k \in 1..n : g[k] = Bad) THEN Bad ELSE Flat(g)

\* ---- checksum and its words ------------------------------------------------------------
Check(kind, p) == LET h == SHA256(SHA256(StrBytes(kind)) \o p) IN << h[1], h[2], h[2], h[3] >>
\* division of a little-endian number by 1626: << quotient, remainder >>
RECURSIVE DivMod(_, _, _)
DivMod(b, i, r) == IF i = 0 THEN << b, r >>
                   ELSE LET x == r * 256 + b[i] IN DivMod([b EXCEPT ![i] = x \div 1626], i - 1, x % 1626)
Digits(c) == LET a == DivMod(c, 4, 0) b == DivMod(a[1], 4, 0) d == DivMod(b[1], 4, 0) IN << a[2], b[2], d[2] >>
WordsOf(c) == [i \in 1..3 |-> StrBytes(Words[Digits(c)[i] + 1])]
Mnemonic(c) == LET w == WordsOf(c) IN w[1] \o << 45 >> \o w[2] \o << 45 >> \o w[3]
\* maximal runs of ASCII letters
IsLetter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
RECURSIVE Runs(_, _)
Runs(t, cur) ==
    IF t = << >> THEN (IF cur = << >> THEN << >> ELSE << cur >>)
    ELSE IF IsLetter(Head(t)) THEN Runs(Tail(t), Append(cur, Head(t)))
    ELSE (IF cur = << >> THEN << >> ELSE << cur >>) \o Runs(Tail(t), << >>)

\* ---- printing ------------------------------------------------------------------------------
RECURSIVE Chunks(_)
Chunks(t) == IF Len(t) <= 7 THEN t ELSE SubSeq(t, 1, 7) \o << 45 >> \o Chunks(SubSeq(t, 8, Len(t)))
Body(p) == LET t == Base(p) IN SubSeq(t, 1, 8) \o << 45 >> \o Chunks(SubSeq(t, 9, Len(t)))
Upper(t) == [i \in 1..Len(t) |-> IF t[i] >= 97 /\ t[i] <= 122 THEN t[i] - 32 ELSE t[i]]
Lower(t) == [i \in 1..Len(t) |-> IF t[i] >= 65 /\ t[i] <= 90 THEN t[i] + 32 ELSE t[i]]
Print(kind, f, id) ==
    LET p == HexBytes(id)
        pre == StrBytes(kind) \o << 58 >>
        suf == << 35 >> \o Mnemonic(Check(kind, p))
    IN CASE f = "" -> pre \o Body(p) \o suf
         [] f = "-" -> Body(p) \o suf
         [] f = "#" -> pre \o Body(p)
         [] f = "-#" -> Body(p)
         [] f = "x" -> StrBytes(id)
         [] f = "X" -> Upper(StrBytes(id))
         [] f = "json" -> << 34 >> \o StrBytes(id) \o << 34 >>
Forms == {"", "-", "#", "-#", "x", "X", "json"}

\* ---- reading ---------------------------------------------------------------------------------
Err == [k |-> "err"]
Ok(p) == [k |-> "ok", v |-> BytesHex(p)]
At(t, c) == { i \in 1..Len(t) : t[i] = c }
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x
IsHex(c) == (c >= 48 /\ c <= 57) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
ParseHex(t) == IF Len(t) = 64 /\ \A i \in 1..64 : IsHex(t[i]) THEN Ok(HexBytes(BytesStr(Lower(t)))) ELSE Err
ParseBaid(kind, t0) ==
    LET colon == At(t0, 58)
        t == IF colon = {} THEN t0 ELSE SubSeq(t0, MaxOf(colon) + 1, Len(t0))
        badkind == colon # {} /\ SubSeq(t0, 1, MaxOf(colon) - 1) # StrBytes(kind)
        hash == At(t, 35)
        body == SelectSeq(IF hash = {} THEN t ELSE SubSeq(t, 1, MinOf(hash) - 1), LAMBDA c : c # 45)
        words == IF hash = {} THEN << >> ELSE Runs(SubSeq(t, MinOf(hash) + 1, Len(t)), << >>)
        b == Unbase(body)
        p == SubSeq(b, 1, 32)
    IN IF badkind \/ b = Bad \/ Len(b) \notin {32, 36} THEN Err
       ELSE IF Len(b) = 36 /\ SubSeq(b, 33, 36) # Check(kind, p) THEN Err
       ELSE IF Len(b) = 32 /\ hash # {} /\ words # WordsOf(Check(kind, p)) THEN Err
       ELSE Ok(p)
Parse(kind, f, t) ==
    CASE f \in {"x", "X"} -> ParseHex(t)
      [] f = "json" -> IF Len(t) >= 2 /\ t[1] = 34 /\ t[Len(t)] = 34 THEN ParseHex(SubSeq(t, 2, Len(t) - 1)) ELSE Err
      [] OTHER -> ParseBaid(kind, t)
=============================================================================
