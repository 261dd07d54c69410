SPECIFICATION Spec
CONSTANTS
  W = 3
  H = 3
  Areas = {0, 1, 2}
  MinSize = 2
  MergeSize = 9
INVARIANTS Good Covered
CHECK_DEADLOCK FALSE
