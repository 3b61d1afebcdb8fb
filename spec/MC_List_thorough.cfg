SPECIFICATION Spec
CONSTANTS
  Names = {"A"}
  Deep = TRUE
INVARIANTS Shown Dump
CHECK_DEADLOCK FALSE
