SPECIFICATION Spec
CONSTANTS
  NV = 3
  MaxOps = 0
  Emit = FALSE
INVARIANTS Fresh Coherent
CHECK_DEADLOCK FALSE
