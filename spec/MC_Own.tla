------------------------------- MODULE MC_Own -------------------------------
(* Stored objects, whole and damaged, under the types published for them.     *)
EXTENDS SOwn, Json
CONSTANTS MaxFaults, Repl, Rich
VARIABLES kind, obj, med, faults
vars == << kind, obj, med, faults >>
M == INSTANCE MC_Art
Init == M!Init /\ kind # "sym"
Spec == Init /\ [][M!Next]_vars
D == DecWhole(TypeOf(kind), med)
\* what loads, loads as the published type says
Described == M!L.k = "ok" => D = Ok(View(kind, M!L.v))
\* the value has no other encoding
RoundTrip == D.k = "ok" => Enc(TypeOf(kind), D.v) = med
\* damage which changes the object changes the value
Told == D.k = "ok" /\ M!L.k = "ok" /\ M!L.v # obj => D.v # View(kind, obj)
Dump == M!Dump
=============================================================================
