CONSTANTS
  Args = {1, 2}
  MaxLen = 3
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
