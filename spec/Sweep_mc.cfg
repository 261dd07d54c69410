SPECIFICATION Spec
CONSTANTS
  W = 7
  H = 7
  Holes = 2
INVARIANTS Right
CHECK_DEADLOCK FALSE
