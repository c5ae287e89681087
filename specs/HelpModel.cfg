SPECIFICATION Spec
CONSTANTS
  Comps = {"Cubic", "Circ", "Cyl", "Bulk", "Indep", "Merge", "Exp", "LJ", "Const", "ExpStep", "Var", "ParVar", "Process", "time", "vec", "proc"}
  Values = {1, 2}
  Sorted = FALSE
INVARIANTS Meant NoTwice
CHECK_DEADLOCK FALSE
