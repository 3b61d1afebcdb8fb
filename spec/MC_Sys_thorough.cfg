SPECIFICATION Spec
CONSTANTS
  Which = {"chain", "diamond", "twins"}
  MaxImports = 5
  MaxRoots = 3
INVARIANTS OrderFree FinalizeIff Minimal ExtractComplete RoundTrip Dump
CHECK_DEADLOCK FALSE
