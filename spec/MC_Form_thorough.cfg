SPECIFICATION Spec
CONSTANTS
 Deref <- Inline
  Breadth = 5
  Depth = 2
  Letters1 = {34, 44, 92, 97}
INVARIANTS Trip ConvTrip Alike Preserved
CHECK_DEADLOCK FALSE
