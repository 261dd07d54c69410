SPECIFICATION Spec
CONSTANTS
  N = 4
  Limit = 1
  Size = 1
INVARIANTS EachOnce Limits Room Found Complete
CHECK_DEADLOCK FALSE
