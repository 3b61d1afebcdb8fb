SPECIFICATION Spec
CONSTANTS
  Names = {"Aa", "B", "C"}
  Shapes = {"flat", "ref", "in1", "ext", "in3", "in4", "extn", "extl"}
INVARIANTS Confluent Complete Exact Outcome Dump
PROPERTY Terminates
CHECK_DEADLOCK FALSE
