SPECIFICATION Spec
CONSTANTS
  NN = 4
  MaxE = 3
  Emit = FALSE
INVARIANTS Agree Some Reverse
CHECK_DEADLOCK FALSE
