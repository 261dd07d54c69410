SPECIFICATION Spec
CONSTANTS
  Tiles <- MCTiles
  Cons <- MCCons
VIEW view
INVARIANTS Function OneWay Nothing
CHECK_DEADLOCK FALSE
