SPECIFICATION Spec
CONSTANTS
  KeySet = {1, 2, 3}
  Sizes = {1, 4}
  Vals = {1}
  MaxDicts = 5
  MaxOps = 25
  Emit = TRUE
  Mix = "flat"
INVARIANTS RoundTrip Printed
CHECK_DEADLOCK FALSE
