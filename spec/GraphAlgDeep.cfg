SPECIFICATION Spec
CONSTANTS
  NN = 4
  MaxE = 4
  Emit = FALSE
INVARIANTS Agree Some Reverse
CHECK_DEADLOCK FALSE
