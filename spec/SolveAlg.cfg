CONSTANTS
  Q = 5
  Deg = 3
SPECIFICATION Spec
INVARIANTS OneIvp1 OneIvp2 OneBvp Expr Same
CHECK_DEADLOCK FALSE
