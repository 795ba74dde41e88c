SPECIFICATION Spec
CONSTANTS
  NA = 3
  NV = 2
  MaxObj = 2
  MaxOps = 0
  Emit = FALSE
INVARIANTS Right 
CHECK_DEADLOCK FALSE
