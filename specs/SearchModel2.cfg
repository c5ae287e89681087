SPECIFICATION Spec
CONSTANTS
  N = 2
  L = 1
  Dim = 2
  Reflecting = FALSE
  Target <- MCTarget
  Radius = 1
  Step = 1
  TMax = 2
  MaxRuns = 2
  Mergeable2 = TRUE
  Style = "all"
  SkipFirst = FALSE
  LoseMass = FALSE
  Reconnect = TRUE
  StopOuter = TRUE
  ResetClock = TRUE
INVARIANTS AllInside Mass NobodyInTarget HitIsReal MovedOnce NeverTwice Apart Fresh
PROPERTIES FreshClock TimeMoves Ends
CHECK_DEADLOCK FALSE
