SPECIFICATION Spec
CONSTANTS
  N = 5
  Y = 2
  Err = 3
  A = 2
INVARIANTS Within Tiled
CHECK_DEADLOCK FALSE
