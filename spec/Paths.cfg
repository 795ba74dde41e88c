SPECIFICATION Spec
CONSTANTS
  Objects = {1, 2, 3}
  MaxWrap = 4
  MaxD = 2
INVARIANT PathIndependent
CHECK_DEADLOCK FALSE
