SPECIFICATION Spec
CONSTANTS
  DMaxs = {8, 20, 100}
  Lens = {0, 1, 3, 4}
  Incs <- IncSet
  TMaxs = {0, 8, 30}
  MaxEmit = 8
  Guarded = TRUE
INVARIANTS InRange StageLen TimeOk Positive
PROPERTIES Monotone NeverPast NoShrink
CHECK_DEADLOCK FALSE
