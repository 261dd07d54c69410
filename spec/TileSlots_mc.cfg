SPECIFICATION Spec
CONSTANTS
  Slots = {0, 1}
  Positions = {"a", "b", "c"}
  SaltMax = 4
  KeepCounter = TRUE
  MaxOps = 9
VIEW view
CONSTRAINT Bound
INVARIANTS OnePerPosition RefsExact NeverNull FreshRefs Capacity
PROPERTY OneSlot
CHECK_DEADLOCK FALSE
