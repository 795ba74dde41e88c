CONSTANTS
  MaxR = 2
  MaxC = 2
  MaxOps = 3
  Gen = FALSE
SPECIFICATION Spec
INVARIANTS OneToOne Onto LastView
CHECK_DEADLOCK FALSE
