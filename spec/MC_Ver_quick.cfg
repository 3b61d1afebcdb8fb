SPECIFICATION Spec
CONSTANTS
  MaxPre = 1
  MaxBuild = 2
INVARIANTS Told Stored Truncated Distinct
CHECK_DEADLOCK FALSE
