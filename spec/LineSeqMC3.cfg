SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2}
  Pts = {1, 2}
  MaxLen = 3
VIEW vw
INVARIANTS TypeOK InverseTwice
PROPERTIES Mirror Frame
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
