SPECIFICATION Spec
CONSTANTS
  Dim = 3
  MaxLen = 1
INVARIANT Counted
CHECK_DEADLOCK FALSE
