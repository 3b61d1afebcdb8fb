SPECIFICATION Spec
CONSTANTS
 Deref <- Inline
  Alphabet = {0, 1, 2, 3, 97, 98, 169, 195, 255}
  MaxBytes = 4
  Deep = TRUE
INVARIANTS Canonical RoundTrip Faithful Reordered Ordered
CHECK_DEADLOCK FALSE
