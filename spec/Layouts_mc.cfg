SPECIFICATION Spec
CONSTANTS
  NX = 2
  NZ = 2
  B = 5
  Rs = {1}
  Cs = {2, 5, 6}
INVARIANTS Certain Bigger BothWays Alike Plain
CHECK_DEADLOCK FALSE
