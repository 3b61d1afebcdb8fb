SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
INVARIANTS Stored Cut
CHECK_DEADLOCK FALSE
