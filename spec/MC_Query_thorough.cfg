SPECIFICATION Spec
CONSTANTS
  Names = {"none", "some", "x"}
  Tags = {0, 1, 127, 255}
  MaxLen = 3
INVARIANTS Listed Labels Kinds Lookups Fields
CHECK_DEADLOCK FALSE
