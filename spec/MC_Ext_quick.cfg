SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  MaxDeps = 3
  MaxTypes = 3
INVARIANTS Grows Unique Limits Changes Dump
CHECK_DEADLOCK FALSE
