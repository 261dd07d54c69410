SPECIFICATION Spec
CONSTANTS
  Tiles = {1, 2, 3, 4, 5}
  Border <- AllBorder
  Links1 = 2
  Cap = 8
  MaxOps = 12
VIEW view
CONSTRAINT Bound
INVARIANTS Function Symmetric NoLeak
CHECK_DEADLOCK FALSE
