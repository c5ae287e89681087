SPECIFICATION Spec
CONSTANTS
  Dim = 2
  Radii = {1, 5}
  V = 2
  MaxA = 3
  MaxB = 3
  Plane = TRUE
INVARIANTS Leaves Isometry Mirror Tangent Twice Norm Start
CHECK_DEADLOCK FALSE
