SPECIFICATION Spec
CONSTANTS
  Len0 = 3
  Top = 5
  Steps = 5
  Flip = FALSE
  Scale = 1
INVARIANTS Bounded
CHECK_DEADLOCK FALSE
