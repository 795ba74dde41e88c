SPECIFICATION Spec
CONSTANTS
  MaxDim = 3
  MaxN = 4
INVARIANTS Lengths Order Once
CHECK_DEADLOCK FALSE
