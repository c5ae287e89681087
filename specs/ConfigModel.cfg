SPECIFICATION Spec
CONSTANTS
  ArgsChecked = TRUE
  Ranks = {0, 4, 5, 6, 8, 10, 13, 14}
  MaxDim = 2
INVARIANTS Sound Complete Advances
PROPERTY Settles
CHECK_DEADLOCK FALSE
