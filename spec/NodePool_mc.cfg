SPECIFICATION Spec
CONSTANTS
  Ids = {0, 1, 2, 3}
  States = {0, 1}
  Max = 3
  Buckets = 2
  MaxOps = 6
VIEW view
INVARIANTS Represents OneToOne Full
CHECK_DEADLOCK FALSE
