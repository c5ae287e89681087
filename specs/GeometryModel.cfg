SPECIFICATION Spec
CONSTANTS
  L = 2
  R = 2
  Dim = 2
  MaxMove = 5
  MixWrong = FALSE
INVARIANTS InSystem Right NoFail RadialRule
CHECK_DEADLOCK FALSE
