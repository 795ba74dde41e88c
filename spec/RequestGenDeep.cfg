SPECIFICATION Spec
CONSTANTS
  MaxDeg = 4
  MaxDim = 4
  MaxLen = 4
INVARIANTS SomethingLeft ReadsGiven
CHECK_DEADLOCK FALSE
