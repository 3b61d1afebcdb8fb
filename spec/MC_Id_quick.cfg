SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b", "ab"}
  Tags = {0, 1}
  Prims = {0, 1, 64}
  Bounds = {0, 1, 255}
  MaxLen = 2
PROPERTY Shows
CHECK_DEADLOCK FALSE
