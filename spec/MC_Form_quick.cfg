SPECIFICATION Spec
CONSTANTS
 Deref <- Inline
  Breadth = 12
  Depth = 1
  Letters1 = {34, 44, 97}
INVARIANTS Trip ConvTrip Alike Preserved
CHECK_DEADLOCK FALSE
