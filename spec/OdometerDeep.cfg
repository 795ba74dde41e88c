SPECIFICATION Spec
CONSTANTS
  Dims = {1, 2, 3}
  Ms = {1, 2, 3}
INVARIANTS Complete Count Removal
CHECK_DEADLOCK FALSE
