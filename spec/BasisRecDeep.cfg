SPECIFICATION Spec
CONSTANTS
  M = 30
  D = 14
  Z = 31
INVARIANTS Exact Exact1
CHECK_DEADLOCK FALSE
VIEW View
