CONSTANTS
  MaxR = 3
  MaxC = 3
  MaxOps = 7
  Gen = TRUE
SPECIFICATION Spec
INVARIANTS OneToOne Onto LastView
CHECK_DEADLOCK FALSE
