SPECIFICATION Spec
CONSTANTS
  Depth = 3
INVARIANTS Faithful Level Nested Once Whole Dump
CHECK_DEADLOCK FALSE
