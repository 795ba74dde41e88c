SPECIFICATION Spec
CONSTANTS
  Dim = 2
  MaxLen = 2
INVARIANT Counted
CHECK_DEADLOCK FALSE
