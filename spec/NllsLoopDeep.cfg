SPECIFICATION Spec
CONSTANTS
  Cap = 5
  Errs = {0, 1, 2, 3, 5, 6, 7}
  Tols = {1, 3, 31, 255, 511, 1025, 1801}
  Maxes = {0, 1, 2, 3, 4, 5}
  Consts = {0, 1}
INVARIANTS Bound Result Prompt Late Printed
PROPERTIES Ends
CHECK_DEADLOCK FALSE
