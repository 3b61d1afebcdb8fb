SPECIFICATION Spec
CONSTANTS
  Depth = 2
INVARIANTS Through Exclusive Widths AsPath Reflexive
CHECK_DEADLOCK FALSE
