SPECIFICATION Spec
CONSTANTS
  MaxOps = 12
  Room = 2
INVARIANTS Bounded
PROPERTIES Off Independent
VIEW View
CHECK_DEADLOCK FALSE
