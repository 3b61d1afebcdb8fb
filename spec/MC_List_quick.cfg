SPECIFICATION Spec
CONSTANTS
  Names = {"A"}
  Deep = FALSE
INVARIANTS Shown Dump
CHECK_DEADLOCK FALSE
