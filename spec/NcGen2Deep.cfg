SPECIFICATION Spec
CONSTANTS
  Dim = 2
  Ms = {4}
  MaxLen = 2
INVARIANT Leaves
CHECK_DEADLOCK FALSE
