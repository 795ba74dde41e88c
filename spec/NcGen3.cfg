SPECIFICATION Spec
CONSTANTS
  Dim = 3
  Ms = {1,2}
  MaxLen = 1
INVARIANT Leaves
CHECK_DEADLOCK FALSE
