-------------------------------- MODULE SWay --------------------------------
(* Paths as objects: sequences of steps which are built step by step, stored  *)
(* as bytes and printed.  Steps are those of SPath, for values ("v") and for   *)
(* type definitions ("t").                                                    *)
EXTENDS SLoad

\* ---- stored form -----------------------------------------------------------------------------
KeyBytes(key) == CASE key.k = "num" -> << 0 >> \o key.b
                   [] key.k = "blob" -> << 1, Len(key.b) >> \o key.b
                   [] key.k = "str" -> << 2, Len(key.b) >> \o key.b
\* kinds of steps in the order of their tags
StepKinds(k) == IF k = "v" THEN << "f", "u", "i", "k" >> ELSE << "f", "u", "v", "ix", "ls", "st", "mk", "mv" >>
TagOf(k, s) == (CHOOSE i \in DOMAIN StepKinds(k) : StepKinds(k)[i] = s.s) - 1
StepBytes(k, s) == << TagOf(k, s) >> \o
    (CASE s.s \in {"f", "v"} -> LenStr(s.n)
       [] s.s = "u" -> << s.i >>
       [] s.s = "i" -> s.b
       [] s.s = "k" -> KeyBytes(s.key)
       [] OTHER -> << >>)
WayBytes(k, p) == (IF k = "v" THEN LE16(Len(p)) ELSE << >>) \o Flat([i \in DOMAIN p |-> StepBytes(k, p[i])])

\* ---- reading it back (independently of the above) --------------------------------------------
KeyAt(b, i) ==
    LET t == U8(b, i) IN
    IF t.k # "ok" THEN No
    ELSE CASE t.v = 0 -> (LET r == Raw(b, i + 1, 16) IN IF r.k = "ok" THEN At([k |-> "num", b |-> r.v], r.i) ELSE No)
           [] t.v \in {1, 2} ->
                (LET n == U8(b, i + 1) IN
                 IF n.k # "ok" THEN No
                 ELSE LET r == Raw(b, i + 2, n.v) IN
                      IF r.k # "ok" THEN No
                      ELSE IF t.v = 1 THEN At([k |-> "blob", b |-> r.v], r.i)
                      ELSE IF n.v > 0 /\ Utf8Points(r.v) = << -1 >> THEN No
                      ELSE At([k |-> "str", b |-> r.v], r.i))
           [] OTHER -> No
StepAt(k, b, i) ==
    LET t == U8(b, i) IN
    IF t.k # "ok" THEN No
    ELSE IF t.v >= Len(StepKinds(k)) THEN No
    ELSE LET s == StepKinds(k)[t.v + 1] IN
         CASE s \in {"f", "v"} -> (LET r == Small(b, i + 1) IN IF r.k = "ok" THEN At([s |-> s, n |-> r.v], r.i) ELSE No)
           [] s = "u" -> (LET r == U8(b, i + 1) IN IF r.k = "ok" THEN At([s |-> "u", i |-> r.v], r.i) ELSE No)
           [] s = "i" -> (LET r == Raw(b, i + 1, 4) IN IF r.k = "ok" THEN At([s |-> "i", b |-> r.v], r.i) ELSE No)
           [] s = "k" -> (LET r == KeyAt(b, i + 1) IN IF r.k = "ok" THEN At([s |-> "k", key |-> r.v], r.i) ELSE No)
           [] OTHER -> At([s |-> s], i + 1)
VStepAt(b, i) == StepAt("v", b, i)
\* paths through values are stored with their length; of paths through types only the steps are stored, here the first one
WayAt(k, b) == IF k = "v" THEN Counted(VStepAt, 2, b, 1)
               ELSE LET r == StepAt("t", b, 1) IN IF r.k = "ok" THEN At(<< r.v >>, r.i) ELSE No

\* ---- printed form ------------------------------------------------------------------------------
RECURSIVE By10(_, _), DecDigits(_, _)
By10(b, r) == IF b = << >> THEN << << >>, r >>
              ELSE LET n == 256 * r + Head(b)
                       q == By10(Tail(b), n % 10)
                   IN << << n \div 10 >> \o q[1], q[2] >>
DecDigits(b, acc) == LET q == By10(b, 0)
                         t == << 48 + q[2] >> \o acc
                     IN IF \A i \in 1..Len(q[1]) : q[1][i] = 0 THEN t ELSE DecDigits(q[1], t)
DecText(le) == DecDigits([i \in 1..Len(le) |-> le[Len(le) + 1 - i]], << >>)
UpHex(b) == LET d(n) == IF n < 10 THEN 48 + n ELSE 55 + n IN Flat([i \in DOMAIN b |-> << d(b[i] \div 16), d(b[i] % 16) >>])
Quoted(b) == Flat([i \in DOMAIN b |-> IF b[i] = 34 THEN << 92, 34 >> ELSE << b[i] >>])
StepText(k, s) ==
    CASE s.s \in {"f", "v"} -> StrBytes(".") \o StrBytes(s.n)
      [] s.s = "u" -> StrBytes(".") \o DecText(<< s.i >>)
      [] s.s = "i" -> StrBytes("[") \o DecText(s.b) \o StrBytes("]")
      [] s.s = "k" -> StrBytes("{") \o (CASE s.key.k = "num" -> DecText(s.key.b)
                                          [] s.key.k = "blob" -> StrBytes("0h") \o UpHex(s.key.b)
                                          [] s.key.k = "str" -> Quoted(s.key.b)) \o StrBytes("}")
      [] s.s = "ix" -> StrBytes("#")
      [] s.s = "ls" -> StrBytes("[]")
      [] s.s = "st" -> StrBytes("{}")
      [] s.s = "mk" -> StrBytes("[key]")
      [] s.s = "mv" -> StrBytes("[value]")
WayText(k, p) == Flat([i \in DOMAIN p |-> StepText(k, p[i])])
=============================================================================
