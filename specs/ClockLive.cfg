SPECIFICATION Live
CONSTANTS
  DMaxs = {8, 20, 100}
  Lens = {0, 1, 3, 4}
  Incs <- IncSet
  TMaxs = {8, 30, 333}
  MaxEmit = 100
  Guarded = TRUE
PROPERTIES Ends
CHECK_DEADLOCK FALSE
