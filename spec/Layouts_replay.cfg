SPECIFICATION Spec
CONSTANTS
  NX = 3
  NZ = 2
  B = 1
  Rs = {0}
  Cs = {2, 5, 6}
CHECK_DEADLOCK FALSE
