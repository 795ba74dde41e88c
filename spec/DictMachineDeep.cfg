SPECIFICATION Spec
CONSTANTS
  KeySet = {1, 2}
  Sizes = {0, 2}
  Vals = {1}
  MaxDicts = 2
  MaxOps = 5
  Emit = FALSE
  Mix = "all"
INVARIANTS RoundTrip Partition SubInverse FlatSum
CHECK_DEADLOCK FALSE
