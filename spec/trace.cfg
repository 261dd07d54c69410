SPECIFICATION TKSpec
CONSTANTS
  Start <- TSStart
  Step <- TSStep
CHECK_DEADLOCK FALSE
POSTCONDITION TKDone
