SPECIFICATION Spec
CONSTANTS
  Wraps = {"slot", "opt"}
  Wraps3 = {"slot", "deep"}
  MaxAdds = 2
INVARIANTS Confluence Outcome Refusals Dump
CHECK_DEADLOCK FALSE
