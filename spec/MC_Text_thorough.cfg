SPECIFICATION Spec
CONSTANTS
  Seeds = {0, 1, 2, 3, 4, 5}
  Chars = {65, 45, 101, 35, 58, 48, 126}
INVARIANTS Own Foreign Edits HexEdits Dump
CHECK_DEADLOCK FALSE
