SPECIFICATION Spec
CONSTANTS
  Dim = 2
  Ms = {1,2,3}
  MaxLen = 2
INVARIANT Leaves
CHECK_DEADLOCK FALSE
