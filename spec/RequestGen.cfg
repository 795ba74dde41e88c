SPECIFICATION Spec
CONSTANTS
  MaxDeg = 3
  MaxDim = 3
  MaxLen = 3
INVARIANTS SomethingLeft ReadsGiven
CHECK_DEADLOCK FALSE
