SPECIFICATION Spec
CONSTANTS
  Objects = {1, 2}
  Queries = {1, 2}
  Steps = 2
  MaxOps = 7
VIEW view
INVARIANT Alone
CHECK_DEADLOCK FALSE
