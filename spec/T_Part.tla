------------------------------- MODULE T_Part -------------------------------
(* Trace specification for building values and reading parts out of them.     *)
EXTENDS SPart, Trace
VARIABLES val
vars == << l, scn, val >>
TInit == TraceBase /\ val = [v |-> "unit"]
TScn == Is("scn") /\ scn' = Ev.id /\ UNCHANGED val
TVal == Is("val") /\ val' = Ev.v /\ UNCHANGED scn
        \* built by the constructors of the public interface
        /\ Chk(Ev.made = Ev.v, "C21", "constructed value", << Ev.v, Ev.made >>)
Flags == { [n |-> "low", g |-> 1], [n |-> "mid", g |-> 7], [n |-> "high", g |-> 200] }
Want == CASE Ev.how = "skip" -> Got(Skip(val))
          [] Ev.how = "option" -> AsOption(val)
          [] Ev.how = "num" -> AsNum(val)
          [] Ev.how = "uint" -> AsUint(val, Ev.arg)
          [] Ev.how = "string" -> AsString(val)
          [] Ev.how = "bytes" -> AsBytes(val)
          [] Ev.how = "tag" -> AsTag(val)
          [] Ev.how = "flag" -> AsVariant(val, Flags)
          [] Ev.how = "union" -> AsUnion(val)
          [] Ev.how = "tuple" -> TupleAt(val, Ev.arg)
          [] Ev.how = "pos" -> ItemAt(val, Ev.arg)
          [] Ev.how = "field" -> FieldAt(val, Ev.arg)
          [] Ev.how = "key" -> KeyAt(val, Ev.arg)
TPart == /\ Is("part") /\ UNCHANGED << scn, val >>
         /\ LET w == Want IN
            Chk(Ev.out.k = w.k /\ (w.k = "ok" => Ev.out.v = w.v), "C21", "part of a value: " \o Ev.how, << val, Ev, w >>)
TEq == /\ Is("eq") /\ UNCHANGED << scn, val >>
       /\ Chk(Ev.out = VEq(val, Ev.other), "C21", "equality of values", << val, Ev >>)
\* a machine number becomes a value: b its bytes, s whether it is signed
TFrom == /\ Is("from") /\ UNCHANGED << scn, val >>
         /\ Chk(Ev.got = [v |-> "num", k |-> IF Ev.s THEN "i" ELSE "u",
                          b |-> [i \in 1..8 |-> IF i <= Len(Ev.b) THEN Ev.b[i] ELSE IF Ev.s /\ Ev.b[Len(Ev.b)] >= 128 THEN 255 ELSE 0]],
                "C21", "value of a machine number", Ev)
TAbort == AbortEvent /\ UNCHANGED << scn, val >>
TNext == TScn \/ TVal \/ TPart \/ TEq \/ TFrom \/ TAbort
TSpec == TInit /\ [][TNext]_vars
=============================================================================
