SPECIFICATION Spec
CONSTANTS
  Cap = 5
  Errs = {0, 1, 3, 6}
  Tols = {1, 31, 511, 1801}
  Maxes = {0, 1, 2, 5}
  Consts = {0, 1}
INVARIANTS Bound Result Prompt Late Printed
PROPERTIES Ends
CHECK_DEADLOCK FALSE
