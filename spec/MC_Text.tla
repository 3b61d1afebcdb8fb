------------------------------- MODULE MC_Text -------------------------------
(* Every text form of some identifiers, and every single-character edit.      *)
EXTENDS SText, TLC
CONSTANTS Seeds, Chars
VARIABLES kind, id, f, t, edited
vars == << kind, id, f, t, edited >>
Base4 == {"", "-", "#", "-#"}
IdOf(s) == CASE s = 0 -> [i \in 1..32 |-> 0] [] s = 1 -> [i \in 1..32 |-> 255] [] s = 2 -> [i \in 1..32 |-> i] [] OTHER -> SHA256(<< s >>)
Init == /\ kind \in Kinds /\ f \in Forms /\ edited = "no"
        /\ \E s \in Seeds : id = BytesHex(IdOf(s))
        /\ t = Print(kind, f, id)
Replace == \E i \in 1..Len(t), c \in Chars : t[i] # c /\ t' = [t EXCEPT ![i] = c]
Delete == \E i \in 1..Len(t) : t' = SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))
Insert == \E i \in 0..Len(t), c \in Chars : t' = SubSeq(t, 1, i) \o << c >> \o SubSeq(t, i + 1, Len(t))
Edit == edited = "no" /\ edited' = "yes" /\ (Replace \/ Delete \/ Insert) /\ UNCHANGED << kind, id, f >>
Next == Edit
Spec == Init /\ [][Next]_vars

Own == edited = "no" => Parse(kind, f, t) = Ok(HexBytes(id))
\* another kind reads it only where nothing tells the kind
Foreign == edited = "no" /\ f \in Base4 \ {"-#"} => \A k \in Kinds \ {kind} : Parse(k, f, t) = Err
\* an edit is refused, or changes nothing but separators, or (without checksum) spells another identifier
Body1(x) == LET c == At(x, 58) h == At(x, 35) IN
    SelectSeq(SubSeq(x, IF c = {} THEN 1 ELSE MaxOf(c) + 1, IF h = {} THEN Len(x) ELSE MinOf(h) - 1), LAMBDA y : y # 45)
Edits ==
    edited = "yes" /\ f \in Base4 =>
      LET r == Parse(kind, f, t) o == Print(kind, f, id) IN
      r.k = "ok" => /\ f \in {"", "-"} => r.v = id
                    /\ (r.v = id) <=> (Body1(t) = Body1(o))
HexEdits == edited = "yes" /\ f \in {"x", "X", "json"} => LET r == Parse(kind, f, t) IN r.k = "ok" => (r.v = id <=> Lower(t) = Lower(Print(kind, f, id)))
Dump == edited = "no" /\ f = "" /\ kind = "semid" => PrintT("SCN " \o ToJson([id |-> id]))
=============================================================================
