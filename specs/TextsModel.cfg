SPECIFICATION Spec
CONSTANTS
  Numbers = {"0", "1.5", "7"}
  Shift = FALSE
INVARIANTS RoundTrip Faithful Unambiguous
CHECK_DEADLOCK FALSE
