SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  Rows = 2
  Own = TRUE
INVARIANT OwnResult
CHECK_DEADLOCK FALSE
