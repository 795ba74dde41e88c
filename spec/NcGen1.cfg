SPECIFICATION Spec
CONSTANTS
  Dim = 1
  Ms = {1,2,3,4}
  MaxLen = 3
INVARIANT Leaves
CHECK_DEADLOCK FALSE
