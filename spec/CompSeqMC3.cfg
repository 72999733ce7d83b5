SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  NLines = 3
  P = {1, 2}
VIEW vw
INVARIANTS Inv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
