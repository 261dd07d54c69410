SPECIFICATION Spec
CONSTANTS
  Rows_ = 6
  Spans = 2
  Height = 2
  Climb = 1
INVARIANTS Symmetric Filters
CHECK_DEADLOCK FALSE
