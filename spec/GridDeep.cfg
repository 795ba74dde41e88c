SPECIFICATION Spec
CONSTANTS
  MaxDim = 4
  MaxN = 4
INVARIANTS Lengths Order Once
CHECK_DEADLOCK FALSE
