SPECIFICATION Spec
CONSTANTS
  Files = 2
  Cap = 2
  MaxNeed = 4
  MaxLim = 4
  Flush = TRUE
  Whole = TRUE
INVARIANTS Honest NoCry Agrees Within
PROPERTY Ends
CHECK_DEADLOCK FALSE
