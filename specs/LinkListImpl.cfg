SPECIFICATION Spec
CONSTANTS MaxN = 4
          RepairCursor = TRUE
INVARIANTS Structure PairOrder PairComplete
PROPERTIES SingleStep PairStep
CHECK_DEADLOCK FALSE
