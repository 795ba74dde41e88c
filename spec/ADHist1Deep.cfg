SPECIFICATION Spec
CONSTANTS
  Dim = 1
  MaxLen = 4
INVARIANT Counted
CHECK_DEADLOCK FALSE
