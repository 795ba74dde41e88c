CONSTANTS
  Args = {1, 2}
  MaxLen = 3
SPECIFICATION Spec
INVARIANTS OrderFree Untouched
CHECK_DEADLOCK FALSE
