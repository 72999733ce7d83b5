SPECIFICATION Spec
CONSTANTS
  Grid = {0, 3, 4, 7, 9}
VIEW vw
INVARIANTS Inv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
