SPECIFICATION Spec
CONSTANTS
  NA = 4
  NV = 4
  MaxObj = 2
  MaxOps = 12
  Emit = TRUE
INVARIANTS Right Printed
CHECK_DEADLOCK FALSE
