SPECIFICATION Spec
CONSTANTS
  M = 12
  D = 8
  Z = 13
INVARIANTS Exact Exact1
CHECK_DEADLOCK FALSE
VIEW View
