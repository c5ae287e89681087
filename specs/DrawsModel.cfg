SPECIFICATION Spec
CONSTANTS
  Gens = {1, 2, 3}
  SeedOf <- Seeds3
  MaxDraws = 4
  Cache = FALSE
INVARIANTS Determined Apart
CHECK_DEADLOCK FALSE
