SPECIFICATION Spec
CONSTANTS
  MaxFaults = 1
  Repl = {0, 65}
  Rich = FALSE
INVARIANTS Whole Exact Cuts Apart Dump
CHECK_DEADLOCK FALSE
