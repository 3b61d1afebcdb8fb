SPECIFICATION Spec
CONSTANTS
  Names = {"Aa", "B", "C"}
  Shapes = {"flat", "ref", "in4", "extn"}
INVARIANTS Confluent Complete Exact Outcome Dump
PROPERTY Terminates
CHECK_DEADLOCK FALSE
