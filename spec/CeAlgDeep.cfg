SPECIFICATION Spec
CONSTANTS
  MaxC = 2
  Level = 2
INVARIANTS Dual Holds Fixed Nested
CHECK_DEADLOCK FALSE
