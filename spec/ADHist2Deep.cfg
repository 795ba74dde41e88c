SPECIFICATION Spec
CONSTANTS
  Dim = 2
  MaxLen = 3
INVARIANT Counted
CHECK_DEADLOCK FALSE
