SPECIFICATION Spec
CONSTANTS
  MaxObj = 3
  MaxOps = 7
  Kinds = {"basis", "elm", "raw"}
  Emit = FALSE
INVARIANTS Isolated Indexed
VIEW View
CHECK_DEADLOCK FALSE
