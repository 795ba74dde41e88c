SPECIFICATION Spec
CONSTANTS
  Dim = 1
  Ms = {5}
  MaxLen = 4
INVARIANT Leaves
CHECK_DEADLOCK FALSE
