SPECIFICATION Spec
CONSTANTS
  Deref <- ByName
  MaxFaults = 1
  Repl = {0, 1, 2, 65, 255}
  Rich = TRUE
INVARIANTS Described RoundTrip Told Dump
CHECK_DEADLOCK FALSE
