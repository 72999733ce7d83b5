SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2}
  Pts = {1, 2}
  MaxLen = 2
VIEW vw
INVARIANTS TypeOK InverseTwice
PROPERTIES Mirror Frame
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
