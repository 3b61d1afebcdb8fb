------------------------------- MODULE SBytes -------------------------------
(* Byte strings as sequences over 0..255, text <-> bytes, little-endian      *)
(* numbers and the SHA-256 compression used by all identifiers.  Operators   *)
(* marked (J) are evaluated by spec/java/SBytes.java (TLC module override):  *)
(* they are the only part of the model that is not plain TLA+.               *)
EXTENDS Integers, Sequences

\* (J) SHA-256 of a byte sequence, as 32 bytes.
SHA256(bytes) == CHOOSE d \in Seq(0..255) : Len(d) = 32
\* (J) ASCII text of a string as bytes; and back.
StrBytes(s) == CHOOSE b \in Seq(0..255) : Len(b) = Len(s)
BytesStr(b) == CHOOSE s \in STRING : StrBytes(s) = b
\* (J) lower-case hexadecimal text <-> bytes.
HexBytes(h) == CHOOSE b \in Seq(0..255) : 2 * Len(b) = Len(h)
BytesHex(b) == CHOOSE h \in STRING : HexBytes(h) = b
\* (J) lexicographic order of strings by byte value.
StrLT(a, b) == CHOOSE r \in BOOLEAN : TRUE
\* (J) ascending order by StrLT of a finite set of strings, as a sequence.
SortStr(S) == CHOOSE q \in Seq(S) : Len(q) = 99
\* (J) concatenation of a sequence of byte sequences.
Flat(qs) == CHOOSE b \in Seq(0..255) : TRUE
\* (J) [i \in 1..Len(hex)/2] UTF-8 code points of the bytes, or <<-1>> when they are not valid UTF-8
Utf8Points(b) == CHOOSE q \in Seq(Nat) : TRUE

\* (J) the words of a text: maximal runs without white space
SplitWords(s) == CHOOSE q \in Seq(STRING) : TRUE

Byte(n) == << n >>
LE16(n) == << n % 256, n \div 256 >>
LE24(n) == << n % 256, (n \div 256) % 256, n \div 65536 >>
LenStr(s) == << Len(s) >> \o StrBytes(s)

\* lexicographic order of byte sequences (a strict prefix is smaller)
RECURSIVE BytesLTAt(_, _, _)
BytesLTAt(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE IF a[i] # b[i] THEN a[i] < b[i]
    ELSE BytesLTAt(a, b, i + 1)
BytesLT(a, b) == BytesLTAt(a, b, 1)

\* little-endian unsigned numbers of any width, kept as byte sequences
RECURSIVE LECmpAt(_, _, _)
LEByte(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
LECmpAt(a, b, i) ==          \* -1, 0, 1; compares bytes i .. 1, most significant first
    IF i = 0 THEN 0
    ELSE IF LEByte(a, i) # LEByte(b, i) THEN (IF LEByte(a, i) < LEByte(b, i) THEN -1 ELSE 1)
    ELSE LECmpAt(a, b, i - 1)
LECmp(a, b) == LECmpAt(a, b, IF Len(a) > Len(b) THEN Len(a) ELSE Len(b))
LELeq(a, b) == LECmp(a, b) <= 0
\* bytes of a small natural, in w bytes (n < 2^31)
RECURSIVE LEOf(_, _)
LEOf(n, w) == IF w = 0 THEN << >> ELSE << n % 256 >> \o LEOf(n \div 256, w - 1)
\* value of an LE number, saturated at 2^29 (sizes in any trace are far below)
Sat == 536870912
RECURSIVE LEVal(_)
LEVal(b) == IF b = << >> THEN 0
            ELSE LET r == LEVal(Tail(b)) IN
                 IF r > 2097151 THEN Sat ELSE Head(b) + 256 * r
\* number of significant bytes
RECURSIVE LESig(_)
LESig(b) == IF b = << >> THEN 0 ELSE IF b[Len(b)] # 0 THEN Len(b) ELSE LESig(SubSeq(b, 1, Len(b) - 1))
=============================================================================
