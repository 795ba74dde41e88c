SPECIFICATION Spec
CONSTANTS
  NA = 4
  NV = 2
  MaxObj = 1
  MaxOps = 0
  Emit = FALSE
INVARIANTS Right 
CHECK_DEADLOCK FALSE
