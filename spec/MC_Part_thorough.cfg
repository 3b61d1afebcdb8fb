SPECIFICATION Spec
CONSTANTS
  Depth = 3
INVARIANTS Through Exclusive Widths AsPath Reflexive
CHECK_DEADLOCK FALSE
