SPECIFICATION Spec
CONSTANTS
  N = 4
  Weights = {1, 3}
  Bounded = TRUE
  Gen = FALSE
INVARIANT Tree
INVARIANT Capacity
INVARIANT Complete
INVARIANT Optimal
INVARIANT Honest
CHECK_DEADLOCK FALSE
