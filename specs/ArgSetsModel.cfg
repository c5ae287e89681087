SPECIFICATION Spec
CONSTANTS
  Comps = {"Const", "Circ", "Bulk", "Cubic"}
  Values = {"a", "b"}
  Shared = FALSE
  KindToo = TRUE
INVARIANTS Fields0 Apart OneOnly Fresh KindOf InOrder Rows
CHECK_DEADLOCK FALSE
