------------------------------- MODULE MC_Way -------------------------------
(* A path grows step by step; whatever it is, its stored form reads back to    *)
(* it and to nothing else, and no part of the stored form does.               *)
EXTENDS SWay, TLC, Json
CONSTANTS MaxLen
Num(x, y) == [k |-> "num", b |-> << x, 0, 0, 0, 0, 0, 0, 0, y, 0, 0, 0, 0, 0, 0, y >>]
Long == "a23456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789Z"
VSteps == { [s |-> "f", n |-> n] : n \in {"a", "_B9", Long} } \cup { [s |-> "u", i |-> i] : i \in {0, 10, 255} }
     \cup { [s |-> "i", b |-> b] : b \in { << 0, 0, 0, 0 >>, << 1, 1, 0, 1 >>, << 255, 255, 255, 255 >> } }
     \cup { [s |-> "k", key |-> [k |-> k, b |-> b]] : k \in {"str", "blob"}, b \in { << >>, << 34, 97 >>, << 195, 169 >> } }
     \cup { [s |-> "k", key |-> Num(x, y)] : x \in {0, 100}, y \in {0, 255} }
TSteps == { [s |-> "f", n |-> n] : n \in {"a", "_B9", Long} } \cup { [s |-> "v", n |-> n] : n \in {"a", "b"} }
     \cup { [s |-> "u", i |-> i] : i \in {0, 10, 255} } \cup { [s |-> s] : s \in {"ix", "ls", "st", "mk", "mv"} }
VARIABLES kind, path
vars == << kind, path >>
Init == kind \in {"v", "t"} /\ path = << >>
Step == /\ Len(path) < MaxLen
        /\ \E s \in IF kind = "v" THEN VSteps ELSE TSteps : path' = Append(path, s)
        /\ UNCHANGED kind
Spec == Init /\ [][Step]_vars
\* the first path of a stored one: all of it, or the first step where only steps are stored
Stored == LET b == WayBytes(kind, path)
              r == WayAt(kind, b)
          IN IF kind = "v" THEN r = At(path, Len(b) + 1)
             ELSE IF path = << >> THEN r = No ELSE r = At(<< path[1] >>, Len(StepBytes(kind, path[1])) + 1)
Cut == LET b == WayBytes(kind, path) IN
       kind = "v" /\ Len(b) < 60 => \A n \in 0..Len(b) - 1 : WayAt(kind, SubSeq(b, 1, n)) = No
ASSUME PrintT("SCN " \o ToJson([v |-> VSteps, t |-> TSteps]))
=============================================================================
