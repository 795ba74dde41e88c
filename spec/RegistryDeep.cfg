SPECIFICATION Spec
CONSTANTS
  MaxObj = 4
  MaxOps = 9
  Kinds = {"basis", "elm", "raw"}
  Emit = FALSE
INVARIANTS Isolated Indexed
VIEW View
CHECK_DEADLOCK FALSE
