SPECIFICATION Spec
CONSTANTS
 Deref <- Inline
  Alphabet = {0, 1, 2, 97, 98, 195, 255}
  MaxBytes = 3
  Deep = FALSE
INVARIANTS Canonical RoundTrip Faithful Reordered Ordered
CHECK_DEADLOCK FALSE
