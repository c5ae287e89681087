SPECIFICATION Spec
CONSTANTS
  M = 2
  Dim = 2
  Alias = FALSE
INVARIANTS Inverse Symmetric CauchySchwarz Metric Polar
PROPERTIES OperandKept
CHECK_DEADLOCK FALSE
