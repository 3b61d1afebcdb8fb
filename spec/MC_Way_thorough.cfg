SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
INVARIANTS Stored Cut
CHECK_DEADLOCK FALSE
