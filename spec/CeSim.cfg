SPECIFICATION Spec
CONSTANTS
  NV = 3
  MaxOps = 14
  Emit = TRUE
INVARIANTS Fresh Printed
CHECK_DEADLOCK FALSE
