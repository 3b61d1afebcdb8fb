SPECIFICATION Spec
CONSTANTS
  Wraps = {"slot", "opt", "list", "arr", "map"}
  Wraps3 = {"slot", "opt", "list", "deep"}
  MaxAdds = 3
INVARIANTS Confluence Outcome Refusals Dump
CHECK_DEADLOCK FALSE
