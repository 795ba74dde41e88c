CONSTANTS
  Q = 7
  Deg = 4
SPECIFICATION Spec
INVARIANTS OneIvp1 OneIvp2 OneBvp Expr Same
CHECK_DEADLOCK FALSE
