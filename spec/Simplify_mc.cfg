SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 3
  Err = 0
INVARIANTS Rounds Matching Near Exact
CHECK_DEADLOCK FALSE
