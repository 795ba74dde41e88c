CONSTANTS
  MaxBlocks = 2
  MaxOps = 1
SPECIFICATION Spec
INVARIANTS Partition FullIsMore
CHECK_DEADLOCK FALSE
