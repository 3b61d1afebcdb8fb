SPECIFICATION Spec
CONSTANTS
  Deref <- ByName
  MaxFaults = 1
  Repl = {0, 65}
  Rich = FALSE
INVARIANTS Described RoundTrip Told Dump
CHECK_DEADLOCK FALSE
