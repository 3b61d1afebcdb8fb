SPECIFICATION Spec
CONSTANTS
  MaxPre = 2
  MaxBuild = 2
INVARIANTS Told Stored Truncated Distinct
CHECK_DEADLOCK FALSE
