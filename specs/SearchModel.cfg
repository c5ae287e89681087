SPECIFICATION Spec
CONSTANTS
  N = 3
  L = 2
  Dim = 1
  Reflecting = TRUE
  Target <- MCTarget
  Radius = 1
  Step = 2
  TMax = 2
  MaxRuns = 2
  Mergeable2 = TRUE
  Style = "first"
  SkipFirst = FALSE
  LoseMass = FALSE
  Reconnect = TRUE
  StopOuter = TRUE
  ResetClock = TRUE
INVARIANTS AllInside Mass NobodyInTarget HitIsReal MovedOnce NeverTwice Apart Fresh
PROPERTIES FreshClock TimeMoves Ends
CHECK_DEADLOCK FALSE
