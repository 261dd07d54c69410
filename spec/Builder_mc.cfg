SPECIFICATION Spec
CONSTANTS
  Tiles = {1, 2}
  MaxOps = 12
INVARIANTS OnlyThat
VIEW View
CHECK_DEADLOCK FALSE
