SPECIFICATION Spec
CONSTANTS
  NN = 4
  MaxE = 3
  Emit = TRUE
INVARIANTS Printed
CHECK_DEADLOCK FALSE
