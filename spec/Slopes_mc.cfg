SPECIFICATION Spec
CONSTANTS
  R = 1
INVARIANTS OneOf Turned Flipped AllRound More Level
CHECK_DEADLOCK FALSE
