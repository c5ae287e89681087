SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Values = {0, 1, 2}
  Shared = FALSE
INVARIANTS Types Apart KeepsDim Pieces
CHECK_DEADLOCK FALSE
