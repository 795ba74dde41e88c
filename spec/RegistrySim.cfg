SPECIFICATION Spec
CONSTANTS
  MaxObj = 6
  MaxOps = 22
  Kinds = {"basis", "nbasis", "elm", "nelm", "raw"}
  Emit = TRUE
INVARIANTS Isolated Indexed Printed
CHECK_DEADLOCK FALSE
