-------------------------------- MODULE SVer --------------------------------
(* Version numbers (as published on semver.org): three numbers, fragments of  *)
(* a pre-release and of a build; their text and their stored bytes.  Also the *)
(* names of file formats, and the arguments of the programs which write        *)
(* library files.                                                              *)
(* A version is [v |-> << major, minor, patch >> (two bytes each), pre, build],*)
(* a fragment [f |-> "id", n |-> name], in a pre-release also                  *)
(* [f |-> "num", b |-> 16 bytes], in a build also [f |-> "num", n |-> name].   *)
EXTENDS SBytes

\* ---- numbers in decimal ---------------------------------------------------------------------------
RECURSIVE Tenth(_, _), Decimal(_, _)
Tenth(b, r) == IF b = << >> THEN << << >>, r >>
               ELSE LET n == 256 * r + Head(b)
                        q == Tenth(Tail(b), n % 10)
                    IN << << n \div 10 >> \o q[1], q[2] >>
Decimal(b, acc) == LET q == Tenth(b, 0)
                       t == << 48 + q[2] >> \o acc
                   IN IF \A i \in 1..Len(q[1]) : q[1][i] = 0 THEN t ELSE Decimal(q[1], t)
NumText(le) == Decimal([i \in 1..Len(le) |-> le[Len(le) + 1 - i]], << >>)
\* w bytes from digits
RECURSIVE Grown(_, _, _)
Grown(b, i, c) == IF i > Len(b) THEN b ELSE Grown([b EXCEPT ![i] = (10 * b[i] + c) % 256], i + 1, (10 * b[i] + c) \div 256)
RECURSIVE NumOf(_, _)
NumOf(t, w) == IF t = << >> THEN [i \in 1..w |-> 0] ELSE Grown(NumOf(SubSeq(t, 1, Len(t) - 1), w), 1, t[Len(t)] - 48)

\* ---- text -------------------------------------------------------------------------------------------
Dot == 46
Dash == 45
Plus == 43
FragText(x) == IF x.f = "num" /\ "b" \in DOMAIN x THEN NumText(x.b) ELSE StrBytes(x.n)
RECURSIVE Dotted(_)
Dotted(q) == IF q = << >> THEN << >> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o << Dot >> \o Dotted(Tail(q))
FragsText(sign, q) == IF q = << >> THEN << >> ELSE << sign >> \o Dotted([i \in DOMAIN q |-> FragText(q[i])])
VerText(x) == Dotted([i \in 1..3 |-> NumText(x.v[i])]) \o FragsText(Dash, x.pre) \o FragsText(Plus, x.build)

\* what a text spells (independently of the above); in builds numbers and names look alike
RECURSIVE Cut(_, _, _)
Cut(t, c, cur) == IF t = << >> THEN << cur >> ELSE IF Head(t) = c THEN << cur >> \o Cut(Tail(t), c, << >>) ELSE Cut(Tail(t), c, Append(cur, Head(t)))
Upto(t, c) == IF \E i \in DOMAIN t : t[i] = c THEN (CHOOSE i \in DOMAIN t : t[i] = c /\ \A j \in 1..i - 1 : t[j] # c) - 1 ELSE Len(t)
Parts(t) == IF t = << >> THEN << >> ELSE Cut(Tail(t), Dot, << >>)
VerOf(t) ==
    LET n == Upto(t, Plus)
        a == SubSeq(t, 1, n)
        m == Upto(a, Dash)
        nums == Cut(SubSeq(a, 1, m), Dot, << >>)
        pre == Parts(SubSeq(a, m + 1, n))
    IN [v |-> [i \in DOMAIN nums |-> NumOf(nums[i], 2)],
        pre |-> [i \in DOMAIN pre |-> IF pre[i][1] \in 48..57 THEN [f |-> "num", b |-> NumOf(pre[i], 16)] ELSE [f |-> "id", n |-> BytesStr(pre[i])]],
        build |-> [i \in DOMAIN Parts(SubSeq(t, n + 1, Len(t))) |-> BytesStr(Parts(SubSeq(t, n + 1, Len(t)))[i])]]
Seen(x) == [x EXCEPT !.build = [i \in DOMAIN x.build |-> x.build[i].n]]

\* ---- stored form --------------------------------------------------------------------------------------
FragBytes(x) == IF x.f = "id" THEN << 0 >> \o LenStr(x.n) ELSE << 1 >> \o (IF "b" \in DOMAIN x THEN x.b ELSE LenStr(x.n))
FragsBytes(q) == << Len(q) >> \o Flat([i \in DOMAIN q |-> FragBytes(q[i])])
VerBytes(x) == x.v[1] \o x.v[2] \o x.v[3] \o FragsBytes(x.pre) \o FragsBytes(x.build)

Stop == [k |-> "err"]
Got(v, i) == [k |-> "ok", v |-> v, i |-> i]
Letter == 65..90 \cup 97..122 \cup {95}
IdentAt(b, i) ==
    IF i > Len(b) THEN Stop
    ELSE LET n == b[i] IN
         IF n = 0 \/ n > 100 \/ i + n > Len(b) THEN Stop
         ELSE LET t == SubSeq(b, i + 1, i + n) IN
              IF t[1] \in Letter /\ \A j \in 2..n : t[j] \in Letter \cup 48..57 THEN Got(BytesStr(t), i + n + 1) ELSE Stop
FragAt(part, b, i) ==
    IF i > Len(b) THEN Stop
    ELSE IF b[i] > 1 THEN Stop
    ELSE IF b[i] = 1 /\ part = "pre"
    THEN (IF i + 16 > Len(b) THEN Stop ELSE Got([f |-> "num", b |-> SubSeq(b, i + 1, i + 16)], i + 17))
    ELSE LET r == IdentAt(b, i + 1) IN IF r.k = "ok" THEN Got([f |-> IF b[i] = 0 THEN "id" ELSE "num", n |-> r.v], r.i) ELSE Stop
RECURSIVE FragsAt(_, _, _, _)
FragsAt(part, n, b, i) ==
    IF n = 0 THEN Got(<< >>, i)
    ELSE LET h == FragAt(part, b, i) IN
         IF h.k # "ok" THEN Stop
         ELSE LET t == FragsAt(part, n - 1, b, h.i) IN IF t.k = "ok" THEN Got(<< h.v >> \o t.v, t.i) ELSE Stop
VerAt(b) ==
    IF Len(b) < 7 THEN Stop
    ELSE LET p == FragsAt("pre", b[7], b, 8) IN
         IF p.k # "ok" THEN Stop
         ELSE IF p.i > Len(b) THEN Stop
         ELSE LET q == FragsAt("build", b[p.i], b, p.i + 1) IN
              IF q.k # "ok" THEN Stop
              ELSE Got([v |-> << SubSeq(b, 1, 2), SubSeq(b, 3, 4), SubSeq(b, 5, 6) >>, pre |-> p.v, build |-> q.v], q.i)

\* ---- names of file formats; arguments -------------------------------------------------------------------
Formats == [source |-> "sty", binary |-> "stl", armored |-> "sta"]
FormatOf(s) == IF \E f \in DOMAIN Formats : Formats[f] = s THEN [k |-> "ok", v |-> CHOOSE f \in DOMAIN Formats : Formats[f] = s]
               ELSE [k |-> "err", e |-> "unknown name for the file format '" \o s \o "'"]
\* the format (by default the listing) and the directory; without arguments everything goes to the standard output
Undashed(s) == CHOOSE x \in {Formats[f] : f \in DOMAIN Formats} : s = "--" \o x \/ s = x
Known(s) == \E f \in DOMAIN Formats : s = "--" \o Formats[f] \/ s = Formats[f]
Args(a) == CASE Len(a) = 0 -> [k |-> "ok", f |-> "source", d |-> "-"]
             [] Len(a) > 2 \/ (Len(a) > 0 /\ ~Known(a[1])) -> [k |-> "refused"]
             [] OTHER -> [k |-> "ok", f |-> FormatOf(Undashed(a[1])).v, d |-> IF Len(a) = 2 THEN "=" \o a[2] ELSE "=stl"]
=============================================================================
