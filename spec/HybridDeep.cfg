CONSTANTS
  MaxBlocks = 3
  MaxOps = 2
SPECIFICATION Spec
INVARIANTS Partition FullIsMore
CHECK_DEADLOCK FALSE
