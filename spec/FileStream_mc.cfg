SPECIFICATION Spec
CONSTANTS
  Tiles = 2
  Whole = TRUE
INVARIANTS OkMeansAll ErrorMeansCut
PROPERTY Decided
CHECK_DEADLOCK FALSE
