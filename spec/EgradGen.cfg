CONSTANTS
  Args = {1, 2, 3}
  MaxLen = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
