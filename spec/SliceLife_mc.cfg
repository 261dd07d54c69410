SPECIFICATION Spec
CONSTANTS
  MaxOps = 7
VIEW View
INVARIANT Once
INVARIANT NoBlindSearch
INVARIANT Reset
CHECK_DEADLOCK FALSE
