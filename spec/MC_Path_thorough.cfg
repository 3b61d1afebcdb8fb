SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
INVARIANTS Composed Inside
CHECK_DEADLOCK FALSE
