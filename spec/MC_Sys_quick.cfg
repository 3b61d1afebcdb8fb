SPECIFICATION Spec
CONSTANTS
  Which = {"chain", "diamond", "twins"}
  MaxImports = 4
  MaxRoots = 2
INVARIANTS OrderFree FinalizeIff Minimal ExtractComplete RoundTrip Dump
CHECK_DEADLOCK FALSE
