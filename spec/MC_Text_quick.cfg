SPECIFICATION Spec
CONSTANTS
  Seeds = {0, 3}
  Chars = {65, 45, 101}
INVARIANTS Own Foreign Edits HexEdits Dump
CHECK_DEADLOCK FALSE
