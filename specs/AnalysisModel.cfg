SPECIFICATION Spec
CONSTANTS
  Own = TRUE
  ClearAll = TRUE
  Configs = {"a", "b"}
  Values = {3, 4, 8, 12}
  MaxFiles = 2
  MaxRuns = 2
INVARIANTS Exact OneBin
PROPERTIES OwnDirectory OutsKept
CHECK_DEADLOCK FALSE
