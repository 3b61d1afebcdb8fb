SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  MaxDeps = 3
  MaxTypes = 3
INVARIANTS Grows Unique Limits Changes Dump
CHECK_DEADLOCK FALSE
