SPECIFICATION Spec
CONSTANTS
  Dim = 1
  MaxLen = 3
INVARIANT Counted
CHECK_DEADLOCK FALSE
