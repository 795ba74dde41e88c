SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  Rows = 2
  Own = FALSE
INVARIANT OwnResult
CHECK_DEADLOCK FALSE
