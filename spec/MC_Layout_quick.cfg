SPECIFICATION Spec
CONSTANTS
  Depth = 2
INVARIANTS Faithful Level Nested Once Whole Dump
CHECK_DEADLOCK FALSE
