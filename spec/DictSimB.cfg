SPECIFICATION Spec
CONSTANTS
  KeySet = {1, 2}
  Sizes = {4}
  Vals = {1}
  MaxDicts = 5
  MaxOps = 25
  Emit = TRUE
  Mix = "all"
INVARIANTS RoundTrip Printed
CHECK_DEADLOCK FALSE
