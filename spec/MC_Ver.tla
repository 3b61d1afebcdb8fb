------------------------------- MODULE MC_Ver -------------------------------
(* A version is given fragment after fragment; its text and its bytes each    *)
(* tell all of it.                                                            *)
EXTENDS SVer, TLC, Json, FiniteSets
CONSTANTS MaxPre, MaxBuild
Nums == { << 0, 0 >>, << 9, 0 >>, << 10, 1 >>, << 255, 255 >> }
Z(n) == [i \in 1..16 |-> IF i = n THEN 1 ELSE 0]
Pres == { [f |-> "id", n |-> n] : n \in {"a", "rc1", "_"} } \cup { [f |-> "num", b |-> b] : b \in { Z(0), Z(1), Z(16), [i \in 1..16 |-> 255] } }
Builds == { [f |-> f, n |-> n] : f \in {"id", "num"}, n \in {"a", "Z9_", "x1"} }
VARIABLES ver
Init == ver \in { [v |-> << a, b, c >>, pre |-> << >>, build |-> << >>] : a, b, c \in Nums }
Pre == Len(ver.pre) < MaxPre /\ ver.build = << >> /\ \E x \in Pres : ver' = [ver EXCEPT !.pre = Append(@, x)]
Build == Len(ver.build) < MaxBuild /\ \E x \in Builds : ver' = [ver EXCEPT !.build = Append(@, x)]
Next == Pre \/ Build
Spec == Init /\ [][Next]_ver
Told == VerOf(VerText(ver)) = Seen(ver)
Stored == VerAt(VerBytes(ver)) = Got(ver, Len(VerBytes(ver)) + 1)
Truncated == Len(ver.pre) + Len(ver.build) < 3 => \A n \in 0..Len(VerBytes(ver)) - 1 : VerAt(SubSeq(VerBytes(ver), 1, n)) = Stop
Distinct == Cardinality({ Formats[f] : f \in DOMAIN Formats }) = 3 /\ \A f \in DOMAIN Formats : FormatOf(Formats[f]) = [k |-> "ok", v |-> f]
ASSUME PrintT("SCN " \o ToJson([nums |-> Nums, pre |-> Pres, build |-> Builds]))
=============================================================================
