SPECIFICATION GSpec
CONSTANTS MaxN = 6
          RepairCursor = TRUE
          Depth = 25
INVARIANT Emit
CHECK_DEADLOCK FALSE
