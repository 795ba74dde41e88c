CONSTANTS
  MaxR = 8
  MaxC = 9
SPECIFICATION Spec
INVARIANTS Faithful Rules
CHECK_DEADLOCK FALSE
