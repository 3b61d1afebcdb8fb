SPECIFICATION Spec
CONSTANTS
  MaxFaults = 1
  Repl = {0, 1, 2, 65, 97, 255}
  Rich = TRUE
INVARIANTS Whole Exact Cuts Apart Dump
CHECK_DEADLOCK FALSE
