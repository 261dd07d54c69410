SPECIFICATION Spec
CONSTANTS
  W = 3
  H = 2
  Nvp = 6
INVARIANTS Area Cover IsConvex OnePoly Rim Goes
CHECK_DEADLOCK FALSE
