SPECIFICATION Spec
CONSTANTS
  NN = 4
  MaxE = 4
  Emit = TRUE
INVARIANTS Printed
CHECK_DEADLOCK FALSE
