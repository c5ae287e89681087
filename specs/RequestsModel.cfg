SPECIFICATION Spec
CONSTANTS
  Times = {0, 4, 8}
  Bins = {0, 2}
  Ratios = {3, 4, 5}
  Nums = {0, 5, 10}
  MaxDirs = 2
  Half = FALSE
INVARIANTS Usable Untouched
CHECK_DEADLOCK FALSE
