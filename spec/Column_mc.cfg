SPECIFICATION Spec
CONSTANTS
  Height = 5
  Areas = {0, 1, 2}
  Thr = 1
  MaxOps = 3
VIEW view
INVARIANTS Exact Ordered TopArea
CHECK_DEADLOCK FALSE
