------------------------------- MODULE Trace -------------------------------
(* Common part of all trace specifications: the recorded events, the position *)
(* in them, and the list of events which the specification does not allow.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
\* l: position in the trace, scn: scenario the current event belongs to
VARIABLES l, scn

\* register 1: mismatches found; register 2: last line consumed
ASSUME TLCSet(1, << >>)
ASSUME TLCSet(2, 0)

Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1 /\ TLCSet(2, l)
TraceBase == l = 1 /\ scn = -1
\* the condition holds, or the mismatch is recorded for property prop; always TRUE
Chk(cond, prop, what, detail) ==
    IF cond THEN TRUE
    ELSE TLCSet(1, Append(TLCGet(1), [scn |-> scn, line |-> l, prop |-> prop, what |-> what, e |-> Ev.e, detail |-> detail]))
\* the call following the last event crashed or hung the process
AbortEvent == Is("abort") /\ Chk(FALSE, "*", "call " \o Ev.how, Ev)
\* written by the postcondition; the runner compares `consumed` with the number of events
Accepted ==
    /\ JsonSerialize(IOEnv.VERDICT, [consumed |-> TLCGet(2), bad |-> TLCGet(1)])
    /\ TLCGet(2) = Len(Trace)
=============================================================================
