SPECIFICATION Spec
CONSTANTS
  Names = {"none", "some"}
  Tags = {0, 1, 127, 255}
  MaxLen = 2
INVARIANTS Listed Labels Kinds Lookups Fields
CHECK_DEADLOCK FALSE
