SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
INVARIANTS Composed Inside
CHECK_DEADLOCK FALSE
