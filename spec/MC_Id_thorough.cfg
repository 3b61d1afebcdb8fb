SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b", "ab"}
  Tags = {0, 1, 97}
  Prims = {0, 1, 3, 64}
  Bounds = {0, 1, 255}
  MaxLen = 2
PROPERTY Shows
CHECK_DEADLOCK FALSE
