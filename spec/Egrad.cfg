CONSTANTS
  Args = {1, 2}
  MaxLen = 2
SPECIFICATION Spec
INVARIANTS OrderFree Untouched
CHECK_DEADLOCK FALSE
