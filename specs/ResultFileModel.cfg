SPECIFICATION Spec
CONSTANTS
  Systems = {"Cubic", "Circ"}
  Agents = {"Merge", "Exp"}
  Times = {"Const", "ExpStep"}
  Sims = {"Var", "ParVar"}
  Vals = {"0", "1"}
  CheckLabels = TRUE
INVARIANTS Faithful NotRefused ArgsRoundTrip
CHECK_DEADLOCK FALSE
