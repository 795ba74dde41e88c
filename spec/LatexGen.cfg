CONSTANTS
  MaxR = 4
  MaxC = 5
SPECIFICATION Spec
INVARIANTS Faithful Rules
CHECK_DEADLOCK FALSE
