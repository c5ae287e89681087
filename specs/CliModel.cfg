SPECIFICATION Spec
CONSTANTS
  Phys = {1, 2}
  Idx = {1, 2}
  MaxRuns = 3
  MaxRows = 2
  NameHasIdx = TRUE
  HeaderFirst = TRUE
  CheckCount = TRUE
INVARIANTS HeaderBeforeData OwnRows NothingLost Found HelpIsHarmless Total Clear
CHECK_DEADLOCK FALSE
